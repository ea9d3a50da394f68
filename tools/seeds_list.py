# Planted bugs: see seeds.py. Each breaks a property in a way that needs something specific to show.
BUGS = []
def bug(id, property, kind, edits, needs, breaks, demo, count=1):
    BUGS.append(dict(id=id, property=property, kind=kind, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count))

HS = "include/symbolic/utils/hash_set.h"
UV = "include/symbolic/utils/unique_vector.h"
CG = "include/symbolic/utils/combination_generator.h"

bug("c05-erase-bound", "C05", "cpp",
    [("include/symbolic/utils/hash_set.h", "std::max(HASH_SET_INITIAL_SIZE, (static_cast<int>(buckets_.size()) - 1) / 2);",
      "std::max(HASH_SET_INITIAL_SIZE, static_cast<int>(buckets_.size()) / 2 - 1);")],
    "removing elements until the table shrinks",
    "sets with the same elements differ, depending on how they came about",
    r'''
#include <cstdio>
#include <string>
#include "symbolic/utils/hash_set.h"
using symbolic::HashSet;
int main() {
  int bad = 0;
  for (int big = 1; big < 200; big++) {
    for (int rest = 0; rest <= big; rest++) {
      HashSet<std::string> a, b;
      for (int i = 0; i < big; i++) a.insert("x" + std::to_string(i));
      for (int i = rest; i < big; i++) a.erase("x" + std::to_string(i));
      for (int i = 0; i < rest; i++) b.insert("x" + std::to_string(i));
      if (!(a == b) || a.size() != b.size()) bad++;
    }
  }
  std::printf("%d unequal\n", bad);
  return bad != 0;
}
''')

bug("c05-step-back", "C05", "cpp",
    [("include/symbolic/utils/hash_set.h", """        idx_in_bucket_ = bucket.size() - 1;
""", """        idx_in_bucket_ = std::min<int>(bucket.size(), 2) - 1;
""")],
    "stepping back through a set in which three elements share a bucket",
    "the third element of a bucket is skipped on the way back",
    r'''
#include <cstdio>
#include "symbolic/utils/hash_set.h"
using symbolic::HashSet;
int main() {
  int bad = 0;
  for (int mask = 1; mask < 65536; mask += 3) {
    HashSet<int> s;
    int n = 0;
    for (int i = 0; i < 16; i++)
      if (mask >> i & 1) n += s.insert(i * 7);
    const HashSet<int>& c = s;
    // From the last element back to before the first.
    auto it = c.end();
    int seen = 0;
    long sum = 0, want = 0;
    for (int x : c) want += x;
    for (int i = 0; i < n; i++) {
      --it;
      sum += *it;
      seen++;
    }
    if (sum != want || !(it == c.begin())) bad++;
  }
  std::printf("%d\n", bad);
  return bad != 0;
}
''', count=2)

bug("c05-range-order", "C05", "cpp",
    [(UV, """  std::sort(Base::begin(), Base::end());
  auto last = std::unique(Base::begin(), Base::end());
  Base::erase(last, Base::end());
""", """  auto last = std::unique(Base::begin(), Base::end());
  std::sort(Base::begin(), last);
  Base::erase(last, Base::end());
""")],
    "a sorted vector built from a list that repeats an element with another one in between",
    "an element is in the vector twice, so removing it leaves it there",
    r'''
#include <cstdio>
#include "symbolic/utils/unique_vector.h"
int main() {
  symbolic::UniqueVector<int> v{3, 1, 3, 2, 1};
  bool ok = v.size() == 3;
  v.erase(3);
  ok = ok && !v.contains(3) && v.size() == 2;
  symbolic::UniqueVector<int> w{2, 1};
  ok = ok && v == w;
  return ok ? 0 : 1;
}
''')

bug("c06-swapped-halves", "C06", "full",
    [("src/state.cc", """int PartialState::insert(const PropositionBase& prop) {
  const int was_negated = static_cast<int>(neg_.erase(prop));
  const int was_added = static_cast<int>(pos_.insert(prop));
""", """int PartialState::insert(const PropositionBase& prop) {
  const int was_added = static_cast<int>(pos_.insert(prop));
  const int was_negated = static_cast<int>(neg_.erase(prop));
""")],
    "memory running out while a denied fact is removed from the negative set, after it was added to the positive one",
    "a fact is held to be both true and false after a failed assertion",
    r'''
#include <new>
#include "demo.h"
static long g_left = -1;
void* operator new(size_t n) {
  if (g_left > 0 && --g_left == 0) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
using namespace symbolic;
int main() {
  std::string objs;
  for (int i = 0; i < 80; i++) objs += " o" + std::to_string(i);
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters () :precondition (and) :effect (and)))",
                "(define (problem p) (:domain d) (:objects" + objs + ") (:init) (:goal (and)))");
  for (int size = 1; size <= 70; size++) {
    for (long at = 1; at < 40; at++) {
      PartialState s;
      for (int i = 0; i < size; i++) s.erase(Proposition(*p, "f(o" + std::to_string(i) + ")"));
      const Proposition f(*p, "f(o0)");
      bool threw = false;
      g_left = at;
      try {
        s.insert(static_cast<const PropositionBase&>(f));
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      g_left = -1;
      if (s.pos().contains(f) && s.neg().contains(f)) {
        std::printf("both true and false: size %d, allocation %ld\n", size, at);
        return 1;
      }
      if (!threw) break;
    }
  }
  return g_bad;
}
''')

bug("c06-moved-fact", "C06", "full",
    [("src/state.cc", """  const int was_negated = static_cast<int>(pos_.erase(prop));
  const int was_erased = static_cast<int>(neg_.insert(std::move(prop)));
""", """  const int was_erased = static_cast<int>(neg_.insert(std::move(prop)));
  const int was_negated = static_cast<int>(pos_.erase(prop));
""")],
    "denying a fact that is known to be true through the overload for temporary facts",
    "the fact is moved into the negative set before it is looked up in the positive one, so that it stays true as well",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters () :precondition (and) :effect (and)))",
                "(define (problem p) (:domain d) (:objects o1 o2 o3) (:init) (:goal (and)))");
  PartialState s;
  for (int i = 1; i <= 3; i++) s.insert(Proposition(*p, "f(o" + std::to_string(i) + ")"));
  CHECK(s.erase(Proposition(*p, "f(o2)")) == 2);
  CHECK(s.IsConsistent());
  CHECK(s.does_not_contain(Proposition(*p, "f(o2)")));
  CHECK(s.pos().size() == 2 && s.neg().size() == 1);
  return g_bad != 0;
}
''')

bug("c07-skip-rest", "C07", "cpp",
    [(CG, """      // Skip if the index is unchanged
      if (idx_i == idx_i_new) continue;
""", """      // Skip if the index is unchanged. The digits that change are next to
      // each other, so nothing is left to do after them.
      if (idx_i == idx_i_new) {
        if (is_changed) break;
        continue;
      }
      is_changed = true;
"""), (CG, """    difference_type remaining = idx_;
    difference_type remaining_new = idx_new;
""", """    bool is_changed = false;
    difference_type remaining = idx_;
    difference_type remaining_new = idx_new;
""")],
    "an option with a single element between options with several, or a jump that leaves a digit in the middle alone",
    "elements after an unchanged digit keep their old value although the index moved on",
    r'''
#include <cstdio>
#include <vector>
#include "symbolic/utils/combination_generator.h"
using symbolic::CombinationGenerator;
int main() {
  std::vector<int> a{0, 1}, b{7}, c{0, 1, 2};
  const CombinationGenerator<const std::vector<int>> gen({&a, &b, &c});
  int n = 0, bad = 0;
  for (const std::vector<int>& x : gen) {
    bad += x[0] != n / 3 || x[1] != 7 || x[2] != n % 3;
    n++;
  }
  std::printf("%d of %d wrong\n", bad, n);
  return bad != 0 || n != 6;
}
''')

bug("c07-reverse-distance", "C07", "cpp",
    [(CG, """  difference_type operator-(const ReverseIterator& rhs) const {
    return rhs.it_ - it_;
""", """  difference_type operator-(const ReverseIterator& rhs) const {
    return it_ - rhs.it_;
""")],
    "the distance between two reverse iterators",
    "distances between reverse iterators have the wrong sign",
    r'''
#include <cstdio>
#include <vector>
#include "symbolic/utils/combination_generator.h"
using symbolic::CombinationGenerator;
int main() {
  std::vector<int> a{0, 1}, c{0, 1, 2};
  const CombinationGenerator<const std::vector<int>> gen({&a, &c});
  auto b = gen.rbegin(), e = gen.rend();
  return e - b == 6 && (b + 2) - b == 2 ? 0 : 1;
}
''')

bug("c08-cache-key", "C08", "full",
    [("src/state.cc", """    const auto it = cache_->idx_propositions.find(prop.to_string());
""", """    const auto it = cache_->idx_propositions.find(CacheKey(prop));
"""), ("src/state.cc", """    cache_->idx_propositions[prop.to_string()] = idx_proposition;
""", """    cache_->idx_propositions[CacheKey(prop)] = idx_proposition;
"""), ("src/state.cc", """std::unordered_map<std::string, size_t> PredicateIndices(
""", """/**
 * Cheaper than formatting the whole proposition.
 */
std::string CacheKey(const ::symbolic::Proposition& prop) {
  std::string key = prop.name();
  for (const ::symbolic::Object& arg : prop.arguments()) key += arg.name();
  return key;
}

std::unordered_map<std::string, size_t> PredicateIndices(
"""), ("src/state.cc", "  const size_t idx_pred = idx_predicates_.at(prop.name());\n",
       "  const auto it_pred = idx_predicates_.find(prop.name());\n  if (it_pred == idx_predicates_.end()) {\n    throw std::out_of_range(\"StateIndex::GetPropositionIndex(): \" + prop.name());\n  }\n  const size_t idx_pred = it_pred->second;\n")],
    "two facts whose names and arguments read the same when written without separators, looked up one after the other",
    "the second fact gets the cached number of the first",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (on ?x ?y) (ona ?y)) (:action a :parameters () :precondition (and) :effect (and)))",
                "(define (problem p) (:domain d) (:objects a ab b bb) (:init) (:goal (and)))");
  const StateIndex& index = p->state_index();
  std::set<size_t> seen;
  for (const char* f : {"on(a, bb)", "on(ab, b)", "ona(b)", "on(a, b)", "ona(bb)", "ona(ab)", "on(a, ab)"}) {
    const Proposition fact(*p, f);
    const size_t i = index.GetPropositionIndex(fact);
    CHECK(seen.insert(i).second);
    CHECK(index.GetProposition(i).to_string() == f);
  }
  return g_bad != 0;
}
''')

bug("c08-empty-group", "C08", "full",
    [("src/state.cc", """                       idx_proposition + 1);
  const size_t idx_pred = it - idx_predicate_group_.begin() - 1;
""", """                       idx_proposition);
  const size_t idx_pred = it - idx_predicate_group_.begin() -
                          (*it == idx_proposition ? 0 : 1);
""")],
    "a predicate without any ground fact (no objects of its type) declared before another predicate",
    "the number of the first fact of the next predicate is looked up in the empty one",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:types box ghost - object) (:predicates (f ?x - box) (g ?x - ghost) (h ?x - box)) (:action a :parameters () :precondition (and) :effect (and)))",
                "(define (problem p) (:domain d) (:objects b1 b2 - box) (:init) (:goal (and)))");
  const StateIndex index(p->predicates(), false);
  CHECK(index.size() == 4);
  std::set<std::string> all;
  for (size_t i = 0; i < index.size(); i++) {
    try {
      const Proposition f = index.GetProposition(i);
      CHECK(index.GetPropositionIndex(f) == i);
      all.insert(f.to_string());
    } catch (const std::exception& e) {
      std::printf("%s\n", e.what());
      g_bad++;
    }
  }
  CHECK(all == (std::set<std::string>{"f(b1)", "f(b2)", "h(b1)", "h(b2)"}));
  return g_bad != 0;
}
''')

bug("c03-rare-check", "C03", "cpp",
    [("include/symbolic/planning/breadth_first_search.h", "    if (bfs_->timeout_.count() > 0 &&\n",
      "    if (bfs_->timeout_.count() > 0 && queue_.size() % 4 == 0 &&\n")],
    "slow nodes and a frontier whose size is not a multiple of four when the limit passes",
    "a search runs on past its time limit by many nodes",
    r'''
#include <chrono>
#include <cstdio>
#include <iostream>
#include <thread>
#include <vector>
#include "symbolic/planning/breadth_first_search.h"
static int g_nodes = 0;
struct Node {
  int depth = 0;
  struct iterator {
    int depth, i;
    Node operator*() const;
    iterator& operator++() { i++; return *this; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  iterator begin() const { return {depth + 1, 0}; }
  iterator end() const { return {depth + 1, 1}; }
  explicit operator bool() const {
    g_nodes++;
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    return false;
  }
};
Node Node::iterator::operator*() const { Node n; n.depth = depth; return n; }
std::ostream& operator<<(std::ostream& os, const Node&) { return os; }
int main() {
  const Node root{};
  const symbolic::BreadthFirstSearch<Node> bfs(root, 60, false, std::chrono::milliseconds(100));
  int plans = 0;
  for (const auto& plan : bfs) plans += !plan.empty();
  std::printf("%d nodes of 20 ms in 100 ms\n", g_nodes);
  return g_nodes > 20 || plans != 0;
}
''')

bug("c02-derived-first", "C02", "full",
    [("src/planning/planner.cc", """    State state = action.Apply(parent.state(), arguments);
    DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);
    it.child_ =
""", """    State state = action.Apply(parent.state(), arguments);
    it.child_ =
""")],
    "a node whose very first action and arguments are applicable and make a derived fact true that a later step needs",
    "the first child of a node lacks derived facts, so that actions that need them are missing from the plans",
    r'''
#include "demo.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/planner.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:requirements :derived-predicates)
    (:predicates (held ?x) (wet ?x) (slippery ?x) (done))
    (:derived (slippery ?x) (wet ?x))
    (:action wash :parameters (?x) :precondition (held ?x) :effect (wet ?x))
    (:action finish :parameters (?x) :precondition (slippery ?x) :effect (done))))",
    "(define (problem p) (:domain d) (:objects a) (:init) (:goal (done)))");
  State start;
  start.emplace(*p, "held(a)");
  const Planner planner(*p, start);
  const BreadthFirstSearch<Planner::Node> bfs(planner.root(), 3);
  int plans = 0;
  for (const auto& plan : bfs) plans += plan.size() == 3;
  std::printf("%d plans\n", plans);
  return plans != 1;
}
''')

bug("c04-depth", "C04", "cpp",
    [("include/symbolic/planning/a_star.h", "    if (ancestors_.size() > kMaxDepth) continue;\n",
      "    if (ancestors_.size() > kMaxDepth - (kMaxDepth > 3)) continue;\n")],
    "a depth bound above three and a plan of exactly that many steps",
    "plans as long as the depth bound are not found",
    r'''
#include <cstdio>
#include <vector>
#include "symbolic/planning/a_star.h"
struct Node {
  int depth = 0;
  struct iterator {
    int depth, i;
    Node operator*() const;
    iterator& operator++() { i++; return *this; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  iterator begin() const { return {depth + 1, 0}; }
  iterator end() const { return {depth + 1, 1}; }
  explicit operator bool() const { return depth == 5; }
};
Node Node::iterator::operator*() const { Node n; n.depth = depth; return n; }
struct Cmp {
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const {
    return a.ancestors.size() > b.ancestors.size();
  }
};
int main() {
  const Node root{};
  Cmp cmp;
  symbolic::AStar<Node, Cmp> search(cmp, root, 5);
  int plans = 0;
  for (const auto& plan : search) plans += plan.size() == 6;
  return plans != 1;
}
''')

bug("c09-first-axiom", "C09", "full",
    [("src/action.cc", """    int status = state->erase(
        PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
    // Return early to avoid infinite loop of axiom application.
    if (status == 0) return status;

    // Apply axioms.
    for (const auto& axiom_apply : axioms) {
      const Axiom& axiom = *axiom_apply.first.lock();
""", """    int status = state->erase(
        PropositionRef(ptr_name_predicate, &prop_args, predicate_hash));
    // Return early to avoid infinite loop of axiom application.
    if (status == 0) return status;

    // Apply axioms until nothing is left to change.
    bool is_settled = false;
    for (auto it = axioms.begin(); it != axioms.end() && !is_settled; ++it) {
      const auto& axiom_apply = *it;
      const Axiom& axiom = *axiom_apply.first.lock();
"""), ("src/action.cc", """      // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
      // std::endl; std::cout << "[" << *state << std::endl;
      const int axiom_status = axiom.Action::Apply(*axiom_args, state);
      status = std::max(status, axiom_status);
""", """      // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
      // std::endl; std::cout << "[" << *state << std::endl;
      const int axiom_status = axiom.Action::Apply(*axiom_args, state);
      status = std::max(status, axiom_status);
      is_settled = axiom_status == 0;
""")],
    "two axioms with the same negative context, the first of whose consequences hold already",
    "axioms after one that changed nothing are not applied when a fact becomes false",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:predicates (held ?x) (free ?x) (cold ?x))
    (:axiom :vars (?x) :context (not (held ?x)) :implies (free ?x))
    (:axiom :vars (?x) :context (not (held ?x)) :implies (cold ?x))
    (:action drop :parameters (?x) :precondition (and) :effect (not (held ?x)))))",
    "(define (problem p) (:domain d) (:objects a b) (:init (held a) (held b) (free a)) (:goal (and)))");
  State s;
  for (const char* f : {"held(a)", "held(b)", "free(a)"}) s.emplace(*p, f);
  CHECK(Facts(p->NextState(s, "drop(b)")) == (std::set<std::string>{"held(a)", "free(a)", "free(b)", "cold(b)"}));
  CHECK(Facts(p->NextState(s, "drop(a)")) == (std::set<std::string>{"held(b)", "free(a)", "cold(a)"}));
  return g_bad != 0;
}
''')

bug("c10-late-derivation", "C10", "full",
    [("src/pddl.cc", """    Apply(action, arguments, derived_predicates(), &next_state);
  }
  return next_state;
""", """    action.Apply(arguments, &next_state);
  }
  DerivedPredicate::Apply(derived_predicates(), &next_state);
  return next_state;
""")],
    "a sequence of actions in which a later conditional effect depends on a fact derived after an earlier one",
    "derived facts in the middle of a sequence are stale",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:requirements :derived-predicates :conditional-effects)
    (:predicates (lit) (visible) (seen))
    (:derived (visible) (lit))
    (:action light :parameters () :precondition (and) :effect (lit))
    (:action look :parameters () :precondition (and) :effect (and (when (visible) (seen))))))",
    "(define (problem p) (:domain d) (:objects) (:init) (:goal (and)))");
  CHECK(Facts(p->ApplyActions(p->initial_state(), {"light()", "look()"})) == (std::set<std::string>{"lit()", "visible()", "seen()"}));
  CHECK(Facts(p->ApplyActions(p->initial_state(), {"look()", "light()"})) == (std::set<std::string>{"lit()", "visible()"}));
  return g_bad != 0;
}
''')

bug("c11-empty-problem", "C11", "full",
    [("src/pddl.cc", "  if (analysis->the_problem == nullptr) {\n",
      "  if (analysis->the_problem == nullptr && input_problem.tellg() != 0 &&\n      !input_problem.str().empty()) {\n")],
    "a problem file that is empty (cut off at the start by a crash of its writer)",
    "an empty problem file loads as a problem without objects and goal instead of raising an error",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  const std::string domain = "(define (domain d) (:predicates (f ?x)) (:action a :parameters () :precondition (and) :effect (and)))";
  { std::ofstream f("problem.pddl"); }
  try {
    auto p = Load(domain, "problem.pddl");
    std::printf("loaded an empty problem file\n");
    return 1;
  } catch (const std::exception&) {
  }
  { std::ofstream f("problem.pddl"); f << "(define (problem p) (:domain d) (:objects a) (:init (f a)) (:goal (f a)))"; }
  auto p = Load(domain, "problem.pddl");
  return p->objects().size() == 1 ? 0 : 1;
}
''')

bug("c12-extra-arguments", "C12", "full",
    [("src/action.cc", "  if (action.parameters().size() != args.size()) {\n", "  if (action.parameters().size() > args.size()) {\n")],
    "an action call with too many arguments",
    "the call is answered instead of refused",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters (?x) :precondition (f ?x) :effect (not (f ?x))))",
                "(define (problem p) (:domain d) (:objects o1 o2) (:init (f o1)) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "a(o1)"));
  for (const char* call : {"a(o1, o2)", "a()"}) {
    bool threw = false;
    try {
      p->IsValidAction(p->initial_state(), call);
    } catch (const std::exception&) {
      threw = true;
    }
    CHECK(threw);
  }
  return g_bad != 0;
}
''')

bug("c12-swallowed", "C12", "full",
    [("src/formula.cc", """    return PP_(state, arguments);
  } catch (const PartialState::UnknownEvaluation& e) {
""", """    return PP_(state, arguments);
  } catch (const std::exception& e) {
""")],
    "memory running out while a condition is evaluated on a partial state",
    "running out of memory is answered as 'unknown' instead of raised",
    r'''
#include <new>
#include "demo.h"
static long g_left = -1;
void* operator new(size_t n) {
  if (g_left > 0 && --g_left == 0) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x) (g ?x)) (:action a :parameters (?x) :precondition (and (f ?x) (not (g ?x))) :effect (g ?x)))",
                "(define (problem p) (:domain d) (:objects o1 o2) (:init (f o1)) (:goal (and)))");
  PartialState s;
  s.insert(Proposition(*p, "f(o1)"));
  s.erase(Proposition(*p, "g(o1)"));
  const Action& a = p->actions()[0];
  const std::vector<Object> args = Object::ParseArguments(*p, "a(o1)");
  for (long at = 1; at < 60; at++) {
    std::optional<bool> r;
    bool threw = false;
    g_left = at;
    try {
      r = a.IsValid(s, args);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    const bool fired = g_left == 0;
    g_left = -1;
    if (!threw) CHECK(r.has_value() && *r);
    if (!fired) break;
  }
  return g_bad != 0;
}
''')

bug("c01-shared-buffer", "C01", "full",
    [("src/object.cc", """  std::string arg;
  std::vector<std::string> args;
  while (ss >> arg) {
    args.emplace_back(std::move(arg));
  }
  return args;
""", """  // Keep the buffers to avoid allocating them for every call.
  static std::string arg;
  static std::vector<std::string> args;
  args.clear();
  while (ss >> arg) {
    args.push_back(arg);
  }
  return args;
""")],
    "two threads parsing the arguments of calls or facts at the same time",
    "arguments of one thread's call end up in another one's",
    r'''
#include <atomic>
#include <thread>
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters (?x ?y) :precondition (f ?x) :effect (f ?y)))",
                "(define (problem p) (:domain d) (:objects o1 o2 o3 o4) (:init (f o1)) (:goal (and)))");
  std::atomic<int> bad{0};
  std::vector<std::thread> threads;
  for (int t = 0; t < 4; t++) {
    threads.emplace_back([&, t] {
      const std::string call = "a(o" + std::to_string(t + 1) + ", o" + std::to_string((t + 1) % 4 + 1) + ")";
      for (int i = 0; i < 100000 && bad == 0; i++) {
        try {
          if (p->IsValidAction(p->initial_state(), call) != (t == 0)) bad++;
        } catch (const std::exception&) {
          bad++;
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  std::printf("%d wrong\n", bad.load());
  return bad != 0;
}
''')

bug("c01-third-type", "C01", "full",
    [("src/object.cc", """  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    if (curr->getName() == type) return true;
  }
  return false;
""", """  if (symbol_ == nullptr) return false;
  if (symbol_->getName() == type) return true;
  return symbol_->type != nullptr && symbol_->type->getName() == type;
""")],
    "a condition on the type of an object, where the type is more than one level above the object's own",
    "the object is taken not to be of the type",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:types knife - tool tool - item item - object) (:predicates (held ?x - item))
    (:action pick :parameters (?x - object) :precondition (item ?x) :effect (held ?x))))",
    "(define (problem p) (:domain d) (:objects k - knife t - tool) (:init) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "pick(t)"));
  CHECK(p->IsValidAction(p->initial_state(), "pick(k)"));
  return g_bad != 0;
}
''')

bug("c15-goal-in-place", "C15", "py",
    [("symbolic/problem.py", """        return create_group(":goal", self._goal)
""", """        self._goal = create_group(":goal", self._goal)
        return self._goal
""")],
    "a problem with a structured goal that is rendered more than once",
    "every rendering wraps the goal once more",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
p = m.Problem("p", "d")
p.add_object("a", "block")
p.set_goal(m._and(m._P("on", "a", "b"), m._not(m._P("clear", "a"))))
once = repr(p)
sys.exit(0 if repr(p) == once and once.count(":goal") == 1 else 1)
''')

bug("c15-cached-arguments", "C15", "py",
    [("symbolic/problem.py", """    str_args = matches.group(2).replace(" ", "").split(",")
    return name_pred, str_args
""", """    str_args = matches.group(2).replace(" ", "").split(",")
    return name_pred, _parsed.setdefault(str_prop, str_args)
"""), ("symbolic/problem.py", "from typing import List, Union, Sequence, Set, Tuple\n",
       "from typing import Dict, List, Union, Sequence, Set, Tuple\n\n_parsed: Dict[str, List[str]] = {}\n")],
    "a caller who changes the argument list it got from parsing a fact and then uses the same fact in a problem",
    "the list is shared with later callers, whose facts change with it",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
head, args = m.parse_proposition("on(a, b)")
args.append("c")
args[0] = "x"
p = m.Problem("p", "d")
p.add_initial_prop("on(a, b)")
sys.exit(0 if "(on a b)" in repr(p) else 1)
''')

bug("c15-skip-known", "C15", "py",
    [("symbolic/problem.py", """    def add_object(self, name: str, object_type: str = ""):
        self._objects.append(Object(name, object_type))
""", """    def add_object(self, name: str, object_type: str = ""):
        if not any(obj.name.startswith(name) for obj in self._objects):
            self._objects.append(Object(name, object_type))
""")],
    "an object whose name is the beginning of the name of one added before it",
    "the object is taken for the other one and left out",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
p = m.Problem("p", "d")
p.add_object("box-1", "box")
p.add_object("box", "box")
sys.exit(0 if "box - box" in repr(p).split(":init")[0].replace("box-1 - box", "") else 1)
''')

# ---- third batch ----
bug("c17-address-order", "C17", "full",
    [("include/symbolic/object.h", "    return &lhs.name() != &rhs.name() && lhs.name() < rhs.name();\n",
      "    return &lhs.name() != &rhs.name() && lhs.symbol_ < rhs.symbol_ &&\n           lhs.name() != rhs.name();\n")],
    "objects that were not declared in the order of their names, or of two loads",
    "the order of objects, and so of facts, depends on where they lie in memory",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  const std::string domain = "(define (domain d) (:predicates (f ?x)) (:action a :parameters (?x) :precondition (f ?x) :effect (f ?x)))";
  std::vector<std::unique_ptr<Pddl>> keep;
  for (int k = 0; k < 20; k++) {
    // Declared in both orders.
    std::string up, down;
    for (int i = 0; i < 8; i++) {
      up += " o" + std::to_string(i);
      down = " o" + std::to_string(i) + down;
    }
    for (const std::string& o : {up, down}) keep.push_back(Load(domain, "(define (problem p) (:domain d) (:objects" + o + ") (:init) (:goal (and)))"));
    for (const auto& p : keep)
      for (const auto& q : keep)
        if (k == 19) {
          const Object a(*p, "o2"), b(*q, "o5");
          CHECK(a < b);
          CHECK(!(b < a));
        }
  }
  return g_bad != 0;
}
''')

bug("c17-comma", "C17", "full",
    [("src/object.cc", "  std::replace(str_args.begin(), str_args.end(), ',', ' ');\n",
      "  const size_t idx_comma = str_args.find(',');\n  if (idx_comma != std::string::npos && str_args.find(\", \") == std::string::npos) {\n    std::replace(str_args.begin(), str_args.end(), ',', ' ');\n  }\n  str_args.erase(std::remove(str_args.begin(), str_args.end(), ','), str_args.end());\n")],
    "arguments separated by a comma with a space in one place and without one in another",
    "such a call is refused, or read as one of another object",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x ?y ?z)) (:action a :parameters (?x ?y ?z) :precondition (and) :effect (f ?x ?y ?z)))",
                "(define (problem p) (:domain d) (:objects b bb) (:init) (:goal (and)))");
  for (const char* t : {"f(b, bb, b)", "f(b,bb,b)", "f(b,bb, b)", "f(b, bb,b)"}) {
    try {
      CHECK(Proposition(*p, t).to_string() == "f(b, bb, b)");
    } catch (const std::exception& e) {
      std::printf("%s: %s\n", t, e.what());
      g_bad++;
    }
  }
  return g_bad != 0;
}
''')

bug("c16-forall-false", "C16", "full",
    [("src/normal_form.cc", """          case VAL::quantifier::E_FORALL:
            return {};
          case VAL::quantifier::E_EXISTS:
            continue;
        }
""", """          case VAL::quantifier::E_FORALL:
            if (qfied_terms.empty()) return {};
            continue;
          case VAL::quantifier::E_EXISTS:
            continue;
        }
""")],
    "a forall whose body can hold for the first objects and never for a later one",
    "the normal form of a condition that never holds says when it does",
    r'''
#include "demo.h"
#include "symbolic/normal_form.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:requirements :equality) (:predicates (f ?x)) (:action a :parameters (?z)
      :precondition (forall (?x) (or (and (= ?x ?z)) (and (f ?x) (not (f ?x))))) :effect (f ?z))
    (:action b :parameters (?z) :precondition (forall (?x) (= ?x ?z)) :effect (f ?z))
    (:action c :parameters (?z) :precondition (forall (?x) (and (= ?x ?z))) :effect (f ?z))))",
    "(define (problem p) (:domain d) (:objects a b) (:init) (:goal (and)))");
  CHECK(!DisjunctiveFormula::NormalizePreconditions(*p, "c(a)").has_value());
  CHECK(!DisjunctiveFormula::NormalizePreconditions(*p, "a(a)").has_value());
  return g_bad != 0;
}
''')

bug("c16-subsumed", "C16", "full",
    [("src/normal_form.cc", "    if (!super.neg().contains(prop)) return false;\n", "    if (super.pos().contains(prop)) return false;\n")],
    "a disjunction of terms one of which has a negative literal the other does not mention",
    "an alternative is dropped although another one does not cover it",
    r'''
#include "demo.h"
#include "symbolic/normal_form.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:predicates (f ?x) (g ?x) (h ?x)) (:action a :parameters (?x)
      :precondition (or (and (f ?x) (not (g ?x))) (and (f ?x) (h ?x))) :effect (f ?x))))",
    "(define (problem p) (:domain d) (:objects a) (:init) (:goal (and)))");
  const auto pre = DisjunctiveFormula::NormalizePreconditions(*p, "a(a)");
  CHECK(pre.has_value() && pre->conjunctions.size() == 2);
  return g_bad != 0;
}
''')

bug("c16-unequal", "C16", "full",
    [("src/normal_form.cc", """                               : Negate(EvaluateEquals(*formula.neg().begin()));
}

std::optional<bool> EvaluateType""", """                               : EvaluateEquals(*formula.neg().begin());
}

std::optional<bool> EvaluateType""")],
    "a condition that some objects are unequal, normalised with axioms or under a quantifier",
    "unequal objects are taken to be equal in the normal form",
    r'''
#include "demo.h"
#include "symbolic/normal_form.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:requirements :equality) (:predicates (f ?x)) (:action a :parameters (?x ?y)
      :precondition (or (f ?x) (not (= ?x ?y))) :effect (f ?x))))",
    "(define (problem p) (:domain d) (:objects a b) (:init) (:goal (and)))");
  const auto always = DisjunctiveFormula::NormalizePreconditions(*p, "a(a, b)");
  CHECK(always.has_value() && always->conjunctions.empty());
  const auto once = DisjunctiveFormula::NormalizePreconditions(*p, "a(a, a)");
  CHECK(once.has_value() && once->conjunctions.size() == 1);
  return g_bad != 0;
}
''')

bug("c02-shared-ancestors", "C02", "full",
    [("src/planning/planner.cc", """    auto ancestors =
        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);
    ancestors->insert(parent);
""", """    // Share the set with the parent instead of copying it.
    auto ancestors = std::const_pointer_cast<Planner::Node::NodeImpl::Cache>(
        parent->ancestors_);
    ancestors->insert(parent);
""")],
    "two plans that pass through the same state by different routes",
    "plans through a state that another branch has expanded are missing",
    r'''
#include "demo.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/planner.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:predicates (f) (g) (h))
    (:action both :parameters () :precondition (and) :effect (and (f) (g)))
    (:action f :parameters () :precondition (and) :effect (f))
    (:action g :parameters () :precondition (and) :effect (g))
    (:action h :parameters () :precondition (and (f) (g)) :effect (h))))",
    "(define (problem p) (:domain d) (:objects a) (:init) (:goal (h)))");
  const Planner planner(*p);
  const BreadthFirstSearch<Planner::Node> bfs(planner.root(), 3);
  int plans = 0;
  for (const auto& plan : bfs) plans += plan.size() > 1;
  std::printf("%d plans\n", plans);
  return plans != 5;
}
''')

bug("c03-half-plan", "C03", "cpp",
    [("include/symbolic/planning/breadth_first_search.h", """      std::swap(queue_, empty);
      break;
""", """      std::swap(queue_, empty);
      return *this;
""")],
    "a time limit that passes after at least one node has been visited",
    "a search that ran out of time hands out the path to the last node visited as a plan",
    r'''
#include <chrono>
#include <cstdio>
#include <iostream>
#include <thread>
#include <vector>
#include "symbolic/planning/breadth_first_search.h"
struct Node {
  int depth = 0;
  struct iterator {
    int depth, i;
    Node operator*() const;
    iterator& operator++() { i++; return *this; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  iterator begin() const { return {depth + 1, 0}; }
  iterator end() const { return {depth + 1, 1}; }
  explicit operator bool() const {
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    return false;
  }
};
Node Node::iterator::operator*() const { Node n; n.depth = depth; return n; }
std::ostream& operator<<(std::ostream& os, const Node&) { return os; }
int main() {
  const Node root{};
  const symbolic::BreadthFirstSearch<Node> bfs(root, 60, false, std::chrono::milliseconds(100));
  int plans = 0;
  for (const auto& plan : bfs) plans += !plan.empty();
  std::printf("%d plans where there is none\n", plans);
  return plans != 0;
}
''')

bug("c04-beam", "C04", "cpp",
    [("include/symbolic/planning/depth_first_search.h", "  while (!stack_.empty()) {\n",
      "  constexpr size_t kMaxStack = 40;\n  while (!stack_.empty()) {\n"),
     ("include/symbolic/planning/depth_first_search.h", "      stack_.emplace(child, ancestors_);\n",
      "      // Keep memory bounded on wide problems.\n      if (stack_.size() < kMaxStack) stack_.emplace(child, ancestors_);\n")],
    "a search with more than forty nodes waiting to be visited",
    "children are dropped, and the plans through them with them",
    r'''
#include <cstdio>
#include <vector>
#include "symbolic/planning/depth_first_search.h"
struct Node {
  int depth = 0, k = 0;
  struct iterator {
    int depth, i;
    Node operator*() const;
    iterator& operator++() { i++; return *this; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  iterator begin() const { return {depth + 1, 0}; }
  iterator end() const { return {depth + 1, 8}; }
  explicit operator bool() const { return depth == 6 && k == 7; }
};
Node Node::iterator::operator*() const { Node n; n.depth = depth; n.k = i; return n; }
int main() {
  const Node root{};
  symbolic::DepthFirstSearch<Node> search(root, 6);
  int plans = 0;
  for (const auto& plan : search) plans += plan.size() == 7;
  std::printf("%d plans\n", plans);
  return plans != 32768;
}
''')

bug("c06-unequal", "C06", "full",
    [("include/symbolic/state.h", "    return lhs.pos_ != rhs.pos_ || lhs.neg_ != rhs.neg_;\n", "    return lhs.pos_ != rhs.pos_ || lhs.neg_.size() != rhs.neg_.size();\n")],
    "partial states with the same true facts and equally many, but different, false ones",
    "they are neither equal nor unequal",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters (?x) :precondition (f ?x) :effect (f ?x)))",
                "(define (problem p) (:domain d) (:objects a b c) (:init) (:goal (and)))");
  PartialState s, t;
  s.emplace(*p, "f(a)");
  t.emplace(*p, "f(a)");
  s.erase(Proposition(*p, "f(b)"));
  t.erase(Proposition(*p, "f(c)"));
  CHECK(!(s == t));
  CHECK(s != t);
  return g_bad != 0;
}
''')

bug("c09-unmatched-axiom", "C09", "full",
    [("src/action.cc", """      SignedProposition::Sign(false) + name_predicate;
  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
  if (pddl.axiom_map().count(axiom_context) > 0) {
    for (const std::weak_ptr<Axiom>& ptr_axiom :
         pddl.axiom_map().at(axiom_context)) {
      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
      std::optional<AxiomApplicationFunction> AxiomApply =
          Axiom::CreateApplicationFunction(parameters, effect_params,
                                           axiom->parameters(),
                                           axiom->context().arguments());
      if (!AxiomApply.has_value()) continue;
""", """      SignedProposition::Sign(false) + name_predicate;
  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
  if (pddl.axiom_map().count(axiom_context) > 0) {
    for (const std::weak_ptr<Axiom>& ptr_axiom :
         pddl.axiom_map().at(axiom_context)) {
      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
      std::optional<AxiomApplicationFunction> AxiomApply =
          Axiom::CreateApplicationFunction(parameters, effect_params,
                                           axiom->parameters(),
                                           axiom->context().arguments());
      if (!AxiomApply.has_value()) break;
""")],
    "an action that deletes a fact about a constant, and two axioms about the absence of such facts, the first about another constant",
    "the second axiom is not applied",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:constants k m) (:predicates (f ?x) (g ?x))
    (:axiom :vars (?x) :context (not (f m)) :implies (g m))
    (:axiom :vars (?x) :context (not (f ?x)) :implies (g ?x))
    (:action a :parameters () :precondition (and) :effect (not (f k)))))",
    "(define (problem p) (:domain d) (:objects o) (:init (f k) (f m) (f o)) (:goal (and)))");
  CHECK(Facts(p->NextState(p->initial_state(), "a()")) == (std::set<std::string>{"f(m)", "f(o)", "g(k)"}));
  return g_bad != 0;
}
''')

bug("c01-nested-scratch", "C01", "full",
    [("src/formula.cc", """      // Create forall arguments
      std::vector<Object> forall_args = arguments;
""", """      // Create forall arguments in a buffer that is reused
      static thread_local std::vector<Object> forall_args;
      forall_args.assign(arguments.begin(), arguments.end());
""")],
    "a forall directly or indirectly inside another forall",
    "the inner one overwrites the arguments of the outer one",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load(R"((define (domain d) (:predicates (f ?x) (g ?x))
    (:action a :parameters () :precondition (forall (?x) (or (g ?x) (exists (?z) (and (f ?z) (not (forall (?y) (f ?y))))) (f ?x))) :effect (and))
    (:action b :parameters (?p) :precondition (forall (?x) (and (not (forall (?y) (g ?y))) (f ?x))) :effect (and))))",
    "(define (problem p) (:domain d) (:objects o1 o2 o3) (:init) (:goal (and)))");
  State s;
  for (const char* f : {"f(o1)", "f(o2)"}) s.emplace(*p, f);
  CHECK(!p->IsValidAction(s, "b(o1)"));
  s.emplace(*p, "f(o3)");
  CHECK(p->IsValidAction(s, "b(o1)"));
  s.emplace(*p, "g(o1)");
  CHECK(p->IsValidAction(s, "b(o3)"));
  return g_bad != 0;
}
''')

bug("c14-type-cache", "C14", "full",
    [("src/object.cc", """  std::vector<std::string> types;
  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    types.push_back(curr->getName());
  }
""", """  // The ancestry of a type never changes, so look it up only once.
  static thread_local std::unordered_map<std::string, std::vector<std::string>> cache;
  const auto it = cache.find(name());
  if (it != cache.end()) return it->second;

  std::vector<std::string>& types = cache[name()];
  for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
       curr = curr->type) {
    types.push_back(curr->getName());
  }
"""), ("src/object.cc", "#include \"symbolic/object.h\"\n", "#include \"symbolic/object.h\"\n\n#include <unordered_map>\n")],
    "two domains loaded in one process whose types have the same names but other parents",
    "the objects of the second problem are of the types of the first",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  const std::string rest = R"( (:predicates (f ?x - tool)) (:action a :parameters (?x - tool) :precondition (and) :effect (f ?x))))";
  const std::string problem = "(define (problem p) (:domain d) (:objects k - knife) (:init) (:goal (and)))";
  auto p = Load("(define (domain d) (:types tool - object knife - tool)" + rest, problem);
  CHECK(p->ListValidActions(p->initial_state()).size() == 1);
  auto q = Load("(define (domain d) (:types tool - object knife - object)" + rest, problem);
  CHECK(q->ListValidActions(q->initial_state()).empty());
  CHECK(p->ListValidActions(p->initial_state()).size() == 1);
  return g_bad != 0;
}
''')

bug("c18-same-end", "C18", "app",
    [("apps/pddl.cc", "  size_t num_plans = 0;\n", "  size_t num_plans = 0;\n  std::set<symbolic::State> reached;\n"),
     ("apps/pddl.cc", "    num_plans++;\n", "    // Count detours that end in the same state once.\n    if (reached.insert(plan.back().state()).second || plan.size() < 4) num_plans++;\n")],
    "two plans of three or more steps that lead to the same state",
    "the second one is printed, but not counted",
    r'''
(define (domain d) (:predicates (f) (g) (h))
  (:action f :parameters () :precondition (not (h)) :effect (f))
  (:action g :parameters () :precondition (not (h)) :effect (g))
  (:action h :parameters () :precondition (and (f) (g)) :effect (h)))
;;; problem
(define (problem p) (:domain d) (:objects a) (:init) (:goal (h)))
;;; args --depth 3
;;; expect Found 2 plans
''')

bug("c18-depth-zero", "C18", "app",
    [("apps/pddl.cc", "        parsed_args.depth = std::stoi(argv[idx]);\n",
      "        if (const int depth = std::stoi(argv[idx])) parsed_args.depth = depth;\n")],
    "a depth of zero",
    "plans with steps are printed although none were asked for",
    r'''
(define (domain d) (:predicates (f))
  (:action f :parameters () :precondition (and) :effect (f)))
;;; problem
(define (problem p) (:domain d) (:objects a) (:init) (:goal (f)))
;;; args --depth 0
;;; expect Found 0 plans
''')

bug("c07-wide", "C07", "cpp",
    [(CG, """    size_groups.back() = 1;

    // Compute group sizes from right to left
    for (int i = options.size() - 2; i >= 0; i--) {
      const size_t num_next = options[i + 1]->size();
      size_groups[i] = num_next * size_groups[i + 1];
    }
""", """    size_groups.back() = 1;

    // Compute group sizes from right to left
    unsigned int size_group = 1;
    for (int i = options.size() - 2; i >= 0; i--) {
      size_group *= options[i + 1]->size();
      size_groups[i] = size_group;
    }
""")],
    "more combinations than fit into 32 bits",
    "combinations are confused with each other",
    r'''
#include <cstdio>
#include <vector>
#include "symbolic/utils/combination_generator.h"
int main() {
  std::vector<int> digits = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
  std::vector<const std::vector<int>*> options(13, &digits);
  const symbolic::CombinationGenerator<const std::vector<int>> gen(options);
  std::vector<int> first(13, 0), c(13, 9);
  int bad = gen.find(first) != 0;
  bad += gen.size() != 10000000000000u;
  c[0] = 1;
  bad += static_cast<unsigned long>(gen.find(c)) != 1999999999999u;
  return bad;
}
''')

bug("c19-borrowed-objects", "C19", "ext",
    [("src/python/symbolic.cc", '      .def_property_readonly("objects", &Pddl::objects)\n',
      '      .def_property_readonly("objects", &Pddl::objects,\n                             py::return_value_policy::reference)\n')],
    "an object taken from the list of a problem that Python then drops",
    "the object refers to freed memory",
    r'''
#include "pydemo.h"
int main() {
  StartPython();
  Ref pddl = PyPddl("(define (domain d) (:predicates (f ?x)))", "(define (problem p) (:domain d) (:objects a b) (:init) (:goal (and)))");
  Ref object = GetAttr(pddl, "objects")->items[1];
  CHECK(GetAttr(object, "name")->s == "b");
  pddl.reset();
  CHECK(GetAttr(object, "name")->s == "b");
  return g_bad != 0;
}
''')

bug("c19-empty-state", "C19", "ext",
    [("src/python/symbolic.cc", "          [](Pddl& pddl, const std::unordered_set<std::string>& state) {\n            pddl.set_initial_state(State(pddl, state));\n",
      "          [](Pddl& pddl, const std::unordered_set<std::string>& facts) {\n            if (facts.empty()) return;\n            pddl.set_initial_state(State(pddl, facts));\n")],
    "an initial state without facts",
    "the initial state stays what it was",
    r'''
#include "pydemo.h"
int main() {
  StartPython();
  Ref pddl = PyPddl("(define (domain d) (:predicates (f ?x)))", "(define (problem p) (:domain d) (:objects a b) (:init (f a)) (:goal (and)))");
  SetAttr(pddl, "initial_state", Set({"f(b)"}));
  CHECK(Strings(GetAttr(pddl, "initial_state")) == std::set<std::string>{"f(b)"});
  SetAttr(pddl, "initial_state", Set({}));
  CHECK(Strings(GetAttr(pddl, "initial_state")).empty());
  return g_bad != 0;
}
''')

bug("c19-first-pickle", "C19", "ext",
    [("src/python/symbolic.cc", "            const auto domain = domain_problem[0].cast<std::string>();\n",
      "            static const auto domain = domain_problem[0].cast<std::string>();\n")],
    "a second problem, of another domain, that is unpickled",
    "it gets the domain of the first",
    r'''
#include "pydemo.h"
int main() {
  StartPython();
  for (const char* name : {"one", "two"}) {
    { std::ofstream f(std::string(name) + ".pddl"); f << "(define (domain " << name << ") (:predicates (f ?x)))"; }
    Ref pddl = Construct("Pddl", {Str(std::string(name) + ".pddl"), Str(std::string("(define (problem p) (:domain ") + name + ") (:objects a) (:init) (:goal (and)))")});
    Ref again = Construct("Pddl", {CallMethod(pddl, "__getstate__")}, {}, "__setstate__");
    CHECK(GetAttr(again, "name")->s == name);
  }
  return g_bad != 0;
}
''')

bug("c19-restarted-search", "C19", "ext",
    [("src/python/symbolic.cc", "        if (!it.initialized) {\n", "        if (!it.initialized || it.it == it.bfs.end()) {\n")],
    "a search that is asked again after its end",
    "it starts again from the beginning",
    r'''
#include "pydemo.h"
int main() {
  StartPython();
  Ref pddl = PyPddl("(define (domain d) (:predicates (f)) (:action a :parameters () :precondition (not (f)) :effect (f)))",
                    "(define (problem p) (:domain d) (:objects o) (:init) (:goal (f)))");
  Ref search = Construct("BreadthFirstSearch", {GetAttr(Construct("Planner", {pddl}), "root"), Int(2)});
  CHECK(CallMethod(search, "__next__")->items.size() == 2);
  for (int i = 0; i < 3; i++) {
    std::string error;
    try {
      CallMethod(search, "__next__");
    } catch (const simpy::PyError& e) {
      error = e.kind;
    }
    CHECK(error == "StopIteration");
  }
  return g_bad != 0;
}
''')

bug("c13-remembered-types", "C13", "full",
    [("src/pddl.cc", "  for (const Object& object : objects) {\n    std::vector<std::string> types = object.type().ListTypes();\n    for (const std::string& type : types) {\n",
      "  thread_local std::unordered_map<const void*, std::vector<std::string>> cache;\n  thread_local std::unordered_map<std::string, std::string> seen;\n  for (const Object& object : objects) {\n    std::vector<std::string>& types = cache[object.symbol()];\n    if (types.empty() || seen[object.name()].empty()) {\n      types = object.type().ListTypes();\n      seen[object.name()] = types.front();\n    }\n    for (const std::string& type : types) {\n")],
    "an object whose symbol lies where one of another problem, with another type, lay",
    "the object is listed under the types of the former one",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  const std::string domain = "(define (domain d) (:types t1 t2) (:predicates (f ?x)) (:action a :parameters (?x - t2) :precondition (and) :effect (f ?x)))";
  for (int i = 0; i < 20; i++) {
    const std::string type = i % 2 ? "t2" : "t1";
    auto p = Load(domain, "(define (problem p) (:domain d) (:objects o - t1) (:init) (:goal (and)))");
    p->AddObject("n", type);
    const auto it = p->object_map().find("t2");
    const size_t have = it == p->object_map().end() ? 0 : it->second.size();
    CHECK(have == (i % 2 ? 1 : 0));
    CHECK(p->ListValidActions(p->initial_state()).size() == have);
    p->RemoveObject("n");
    p->AddObject("n", i % 2 ? "t1" : "t2");
    CHECK(p->ListValidActions(p->initial_state()).size() == 1 - have);
  }
  return g_bad != 0;
}
''')

bug("c11-crlf", "C11", "full",
    [("src/pddl.cc", '  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n\\r");\n', '  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n");\n')],
    "a problem given as text with the line ends of another system",
    "the text is taken for the name of a file",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  const std::string domain = "(define (domain d) (:predicates (f ?x)) (:action a :parameters () :precondition (and) :effect (and)))";
  try {
    auto p = Load(domain, "(define (problem p)\r\n (:domain d)\r\n (:objects a)\r\n (:init (f a))\r\n (:goal (f a)))\r\n");
    return p->objects().size() == 1 ? 0 : 1;
  } catch (const std::exception& e) {
    std::printf("%s\n", e.what());
    return 1;
  }
}
''')

bug("c10-last-round", "C10", "full",
    [("src/derived_predicate.cc", "    is_changed |= is_iter_changed;\n  }\n  return is_changed;\n}\n\nbool DerivedPredicate::Apply(const std::vector",
      "    is_changed = is_iter_changed;\n  }\n  return is_changed;\n}\n\nbool DerivedPredicate::Apply(const std::vector")],
    "rules that build on each other and are listed with the dependent one first",
    "facts that need another round are not derived",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (b ?x) (p ?x) (q ?x)) (:derived (p ?x) (q ?x)) (:derived (q ?x) (b ?x))"
                " (:action a :parameters (?x) :precondition (and) :effect (b ?x)))",
                "(define (problem p) (:domain d) (:objects o1 o2) (:init (b o1)) (:goal (and)))");
  CHECK(Facts(p->initial_state()) == (std::set<std::string>{"b(o1)", "p(o1)", "q(o1)"}));
  CHECK(Facts(p->NextState(p->initial_state(), "a(o2)")).size() == 6);
  return g_bad != 0;
}
''')

bug("c12-leftovers", "C12", "full",
    [("src/pddl.cc", "State ParseState(const Pddl& pddl, const std::set<std::string>& str_state) {\n  State state;\n  state.reserve(str_state.size());\n  for (const std::string& str_prop : str_state) {\n    state.emplace(pddl, str_prop);\n  }\n  return state;\n}\n",
      "State ParseState(const Pddl& pddl, const std::set<std::string>& str_state) {\n  thread_local State state;\n  state.reserve(str_state.size());\n  for (const std::string& str_prop : str_state) {\n    state.emplace(pddl, str_prop);\n  }\n  return std::exchange(state, State());\n}\n")],
    "a state given as text that names an unknown object after known ones, and then another",
    "the facts before the unknown object turn up in the next state that is given as text",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters (?x) :precondition (f ?x) :effect (not (f ?x))))",
                "(define (problem p) (:domain d) (:objects o1 o2) (:init) (:goal (f o1)))");
  const std::set<std::string> other = {"f(o2)"};
  CHECK(!p->IsGoalSatisfied(other));
  bool threw = false;
  try {
    p->IsGoalSatisfied(std::set<std::string>{"f(o1)", "f(zzz)"});
  } catch (const std::exception&) {
    threw = true;
  }
  CHECK(threw);
  CHECK(!p->IsGoalSatisfied(other));
  return g_bad != 0;
}
''')

bug("c14-reused-address", "C14", "full",
    [("src/object.cc", "const VAL::const_symbol* GetSymbol(const Pddl& pddl,\n                                   const std::string& name_object) {\n",
      "const VAL::const_symbol* FindSymbol(const Pddl& pddl,\n                                    const std::string& name_object) {\n"),
     ("src/object.cc", "std::vector<std::string> TokenizeArguments(",
      "// Objects are mostly looked up several times in a row.\nconst VAL::const_symbol* GetSymbol(const Pddl& pddl,\n                                   const std::string& name_object) {\n  thread_local const VAL::analysis* analysis = nullptr;\n  thread_local const VAL::const_symbol* symbol = nullptr;\n  thread_local std::string name;\n  if (symbol == nullptr || analysis != pddl.symbol() || name != name_object) {\n    symbol = FindSymbol(pddl, name_object);\n    analysis = pddl.symbol();\n    name = name_object;\n  }\n  return symbol;\n}\n\nstd::vector<std::string> TokenizeArguments(")],
    "an object that is removed right after it was looked up (or its problem replaced by one at the same place)",
    "the object is still found",
    r'''
#include "demo.h"
using namespace symbolic;
int main() {
  const std::string domain = "(define (domain d) (:predicates (f ?x)) (:action a :parameters (?x) :precondition (and) :effect (f ?x)))";
  auto p = Load(domain, "(define (problem p) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "a(o2)"));
  p->RemoveObject("o2");
  bool threw = false;
  try {
    p->IsValidAction(p->initial_state(), "a(o2)");
  } catch (const std::exception&) {
    threw = true;
  }
  CHECK(threw);
  return g_bad != 0;
}
''')
BUGS[-1]["property"] = "C13"
BUGS[-1]["id"] = "c13-last-lookup"

bug("c02-backward-derived", "C02", "full",
    [("src/planning/planner.cc", """    --it_param_;

    // Check action preconditions
    const Action& action = *it_action_;
    const std::vector<Object>& arguments = *it_param_;
    if (action.IsValid(parent_.state(), arguments)) {
      // Set action and apply postconditions to child
      State state = action.Apply(parent_.state(), arguments);
      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
""", """    --it_param_;

    // Check action preconditions
    const Action& action = *it_action_;
    const std::vector<Object>& arguments = *it_param_;
    if (action.IsValid(parent_.state(), arguments)) {
      // Set action and apply postconditions to child
      State state = parent_.state();
      const bool is_changed = action.Apply(arguments, &state);
      if (is_changed && child_.impl_) {
        DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
      }
""")],
    "children of a planner node walked backwards from the end in a domain with derived predicates",
    "the last child lacks derived facts",
    r'''
#include "demo.h"
#include "symbolic/planning/planner.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (b ?x) (p ?x)) (:derived (p ?x) (b ?x))"
                " (:action a :parameters (?x) :precondition (and) :effect (b ?x)))",
                "(define (problem p) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  Planner planner(*p);
  std::vector<std::set<std::string>> forward, backward;
  for (const Planner::Node& child : planner.root()) forward.push_back(Facts(child.state()));
  auto it = planner.root().end();
  for (size_t i = 0; i < forward.size(); i++) {
    --it;
    backward.insert(backward.begin(), Facts((*it).state()));
  }
  CHECK(forward.size() == 2 && forward == backward);
  return g_bad != 0;
}
''')

bug("c06-insert-first", "C06", "full",
    [("src/state.cc", """int PartialState::insert(const PropositionBase& prop) {
  const int was_negated = static_cast<int>(neg_.erase(prop));
  const int was_added = static_cast<int>(pos_.insert(prop));
""", """int PartialState::insert(const PropositionBase& prop) {
  const int was_added = static_cast<int>(pos_.insert(prop));
  const int was_negated = static_cast<int>(neg_.erase(prop));
""")],
    "memory that runs out while the denied facts shrink after one of them is asserted",
    "the fact is both true and false",
    r'''
#include "demo.h"
#include <new>
static long g_left = -1;
void* operator new(size_t n) {
  if (g_left == 0) throw std::bad_alloc();
  if (g_left > 0) g_left--;
  void* p = std::malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
using namespace symbolic;
int main() {
  std::string objects;
  for (int i = 0; i < 40; i++) objects += " o" + std::to_string(i);
  auto p = Load("(define (domain d) (:predicates (f ?x)))", "(define (problem p) (:domain d) (:objects" + objects + ") (:init) (:goal (and)))");
  std::vector<Proposition> facts;
  for (int i = 0; i < 40; i++) facts.emplace_back(*p, "f(o" + std::to_string(i) + ")");
  for (int erased = 0; erased < 39; erased++)
    for (long fail = 0; fail < 40; fail++) {
      PartialState s;
      for (const Proposition& f : facts) s.erase(f);
      for (int i = 0; i < erased; i++) s.insert(facts[i]);
      const PropositionBase& fact = facts[erased];
      g_left = fail;
      try {
        s.insert(fact);
      } catch (const std::bad_alloc&) {
      }
      g_left = -1;
      CHECK(!(s.pos().contains(fact) && s.neg().contains(fact)));
      if (g_bad) return 1;
    }
  return 0;
}
''')

bug("c16-remembered", "C16", "full",
    [("src/normal_form.cc", """  const auto aa = Action::Parse(pddl, action_call);
  std::optional<DisjunctiveFormula> pre =
      DisjunctiveFormula::Create(pddl, aa.first.preconditions().symbol(),
                                 aa.first.parameters(), aa.second);
  if (!pre.has_value()) return pre;
""", """  const auto aa = Action::Parse(pddl, action_call);
  thread_local std::pair<const VAL::goal*, std::vector<Object>> last;
  thread_local std::optional<DisjunctiveFormula> last_pre;
  if (last.first != aa.first.preconditions().symbol() ||
      last.second != aa.second) {
    last = {aa.first.preconditions().symbol(), aa.second};
    last_pre = DisjunctiveFormula::Create(
        pddl, aa.first.preconditions().symbol(), aa.first.parameters(),
        aa.second);
  }
  std::optional<DisjunctiveFormula> pre = last_pre;
  if (!pre.has_value()) return pre;
""")],
    "preconditions of an action with quantifiers, asked for twice in a row with an object added between",
    "the form does not mention the new object",
    r'''
#include "demo.h"
#include "symbolic/normal_form.h"
using namespace symbolic;
int main() {
  auto p = Load("(define (domain d) (:predicates (f ?x)) (:action a :parameters () :precondition (forall (?x) (f ?x)) :effect (and)))",
                "(define (problem p) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  for (size_t n = 2; n < 5; n++) {
    const auto pre = DisjunctiveFormula::NormalizePreconditions(*p, "a()");
    CHECK(pre.has_value() && pre->conjunctions.size() == 1 && pre->conjunctions[0].pos().size() == n);
    p->AddObject("n" + std::to_string(n), "object");
  }
  return g_bad != 0;
}
''')

bug("c03-wall-clock", "C03", "cpp",
    [("include/symbolic/planning/breadth_first_search.h", "    if (bfs_->timeout_.count() > 0 &&\n", "    if (bfs_->timeout_.count() != 0 &&\n"),
     ("include/symbolic/planning/breadth_first_search.h", "  const auto t_start = std::chrono::steady_clock::now();\n", "  const auto t_start = std::chrono::system_clock::now();\n"),
     ("include/symbolic/planning/breadth_first_search.h", "            std::chrono::steady_clock::now() - t_start) > bfs_->timeout_) {\n", "            std::chrono::system_clock::now() - t_start) > bfs_->timeout_) {\n")],
    "the wall clock set forward while a search with a time limit is running",
    "the search ends although hardly any time has passed",
    r'''
#include <chrono>
#include <cstdio>
#include <vector>
static long g_wall = 1000000000, g_steady = 1000000000;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_wall)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_steady)); }
} } }
#include "symbolic/planning/breadth_first_search.h"
struct Node {
  int n = 0;
  explicit operator bool() const { return n == 5; }
  std::vector<Node> kids() const { g_wall += 3600000000000L; g_steady += 1000; return {Node{n + 1}}; }
  struct It { std::vector<Node> v; size_t i; const Node& operator*() const { return v[i]; } It& operator++() { ++i; return *this; } bool operator!=(const It& o) const { return i != o.i; } };
  It begin() const { return {kids(), 0}; }
  It end() const { return {{}, 1}; }
};
std::ostream& operator<<(std::ostream& os, const Node& n) { return os << n.n; }
int main() {
  Node root;
  symbolic::BreadthFirstSearch<Node> bfs(root, 10, false, std::chrono::microseconds(1000000));
  int plans = 0;
  for (const auto& plan : bfs) plans += plan.size() == 6;
  std::printf("%d plans\n", plans);
  return plans == 1 ? 0 : 1;
}
''')

bug("c18-prefix", "C18", "app",
    [("apps/pddl.cc", '      if (arg == "--depth" && idx + 1 < argc) {\n', '      if (arg.find("--depth") == 0 && idx + 1 < argc) {\n')],
    "an option that merely starts like one",
    "a command line that makes no sense is accepted",
    r'''
(define (domain d) (:predicates (f))
  (:action f :parameters () :precondition (and) :effect (f)))
;;; problem
(define (problem p) (:domain d) (:objects a) (:init) (:goal (f)))
;;; args --depths 3
;;; expect Usage
''')

bug("c05-late-shrink", "C05", "cpp",
    [(HS, "    return std::max(HASH_SET_INITIAL_SIZE, (static_cast<int>(buckets_.size()) - 1) / 2);\n",
      "    return std::max(HASH_SET_INITIAL_SIZE, (static_cast<int>(buckets_.size()) - 1) / 4);\n")],
    "a set that shrank below half of its buckets",
    "it differs from a set with the same elements that never was as large",
    r'''
#include <cstdio>
#include "symbolic/utils/hash_set.h"
int main() {
  for (int n = 1; n < 200; n++)
    for (int keep = 0; keep < n; keep++) {
      symbolic::HashSet<int> a, b;
      for (int i = 0; i < n; i++) a.insert(i);
      for (int i = keep; i < n; i++) a.erase(i);
      for (int i = 0; i < keep; i++) b.insert(i);
      if (!(a == b)) return std::printf("%d of %d\n", keep, n), 1;
    }
  return 0;
}
''')

bug("c01-packed-arguments", "C01", "full",
    [("src/formula.cc", "  std::vector<std::pair<size_t, size_t>> idx_params;\n",
      "  struct Index {\n    unsigned char prop : 6;\n    unsigned char action : 2;\n  };\n  std::vector<Index> idx_params;\n"),
     ("src/formula.cc", "        idx_params.emplace_back(i, j);\n",
      "        idx_params.push_back({static_cast<unsigned char>(i), static_cast<unsigned char>(j)});\n"),
     ("src/formula.cc", "    for (const std::pair<size_t, size_t>& idx_prop_action : idx_params) {\n", "    for (const Index& idx_prop_action : idx_params) {\n"),
     ("src/formula.cc", "      const size_t idx_prop = idx_prop_action.first;\n", "      const size_t idx_prop = idx_prop_action.prop;\n"),
     ("src/formula.cc", "      const size_t idx_action = idx_prop_action.second;\n", "      const size_t idx_action = idx_prop_action.action;\n")],
    "a condition or effect about the fifth parameter in scope, counting quantified ones",
    "it is read from the first argument",
    r'''
#include "demo.h"
int main() {
  auto p = Load(R"((define (domain d) (:predicates (p ?x) (q ?x))
    (:action a :parameters (?a ?b ?c ?d) :precondition (forall (?e) (p ?e)) :effect (q ?d))
    (:action b :parameters (?a ?b ?c ?d) :precondition (exists (?e) (q ?e)) :effect (q ?d))))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init (p o1) (q o2)) (:goal (and)))");
  CHECK(!p->IsValidAction(p->initial_state(), "a(o1, o1, o1, o1)"));
  CHECK(p->IsValidAction(p->initial_state(), "b(o1, o1, o1, o1)"));
  return g_bad != 0;
}
''')

bug("c01-remembered-call", "C01", "full",
    [("src/action.cc", "  auto aa = std::make_pair(Action(pddl, action_call),\n                           Object::ParseArguments(pddl, action_call));\n",
      "  // Calls are often asked about several times in a row.\n  thread_local std::pair<std::pair<const Pddl*, std::string>, Action> last;\n"
      "  if (last.first.first != &pddl || last.first.second != Proposition::ParseHead(action_call)) {\n"
      "    last.first = {&pddl, Proposition::ParseHead(action_call)};\n    last.second = Action();\n    last.second = Action(pddl, action_call);\n  }\n"
      "  auto aa = std::make_pair(last.second, Object::ParseArguments(pddl, action_call));\n")],
    "a call that names an unknown action, asked about again",
    "it is taken for an action without parameters, conditions or effects (or for one of another problem that was loaded at the same address)",
    r'''
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p)) (:action a :parameters () :precondition (and) :effect (p)))",
    "(define (problem x) (:domain d) (:objects o1) (:init) (:goal (p)))");
  int refused = 0;
  for (int i = 0; i < 2; i++)
    try { symbolic::Action::Parse(*p, "b()"); } catch (const std::exception&) { refused++; }
  CHECK(refused == 2);
  return g_bad != 0;
}
''')

bug("c03-int-limit", "C03", "cpp",
    [("include/symbolic/planning/breadth_first_search.h", "        timeout_(us_timeout) {}\n",
      "        timeout_(static_cast<int>(us_timeout.count())) {}\n")],
    "a limit above 35 minutes and a search that takes that long",
    "the search ends early or has no limit",
    r'''
#include <chrono>
#include <cstdio>
#include <vector>
static long g_wall = 1000000000, g_steady = 1000000000;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_wall)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_steady)); }
} } }
#include "symbolic/planning/breadth_first_search.h"
struct Node {
  int n = 0;
  explicit operator bool() const { return n == 5; }
  std::vector<Node> kids() const { g_wall += 600000000000L; g_steady += 600000000000L; return {Node{n + 1}}; }
  struct It { std::vector<Node> v; size_t i; const Node& operator*() const { return v[i]; } It& operator++() { ++i; return *this; } bool operator!=(const It& o) const { return i != o.i; } };
  It begin() const { return {kids(), 0}; }
  It end() const { return {{}, 1}; }
};
std::ostream& operator<<(std::ostream& os, const Node& n) { return os << n.n; }
int main() {
  Node root;
  symbolic::BreadthFirstSearch<Node> bfs(root, 10, false, std::chrono::microseconds(5000000000L));
  int plans = 0;
  for (const auto& plan : bfs) plans += plan.size() == 6;
  std::printf("%d plans\n", plans);
  return plans == 1 ? 0 : 1;
}
''')

bug("c05-full-bucket", "C05", "cpp",
    [(HS, "    int idx_in_bucket_ = 0;\n", "    signed char idx_in_bucket_ = 0;\n")],
    "more than 127 elements with the same hash",
    "iteration does not reach the others",
    r'''
#include <cstdio>
#include <set>
#include <string>
#include <vector>
#include "symbolic/utils/hash_set.h"
struct Key { int v = 0; bool operator<(const Key& o) const { return v < o.v; } bool operator==(const Key& o) const { return v == o.v; } };
namespace std { template <> struct hash<Key> { size_t operator()(const Key&) const { return 4; } }; }
int main() {
  symbolic::HashSet<Key> s;
  for (int i = 0; i < 300; i++) s.insert(Key{i});
  int n = 0;
  const auto& c = s;
  for (auto it = c.begin(); it != c.end() && n < 1000; ++it) n++;
  std::printf("%d of 300\n", n);
  return n == 300 ? 0 : 1;
}
''', count=2)

bug("c09-active-once", "C09", "full",
    [("src/action.cc", "      // std::cout << axiom << std::endl;\n      if (!axiom_args.has_value()) continue;\n",
      """      // An axiom does not trigger itself.
      static thread_local std::vector<const Axiom*> active;
      if (!axiom_args.has_value()) continue;
      if (std::find(active.begin(), active.end(), &axiom) != active.end()) continue;
      struct Guard {
        std::vector<const Axiom*>* a;
        ~Guard() { a->pop_back(); }
      };
      active.push_back(&axiom);
      const Guard guard{&active};
""")],
    "an axiom whose consequence triggers it again with other arguments",
    "the consequences of the consequence are missing",
    r'''
#include "demo.h"
int main() {
  auto p = Load(R"((define (domain d) (:predicates (r ?x ?y ?z))
    (:axiom :vars (?x ?y ?z) :context (r ?x ?y ?z) :implies (r ?y ?z ?x))
    (:action a :parameters (?x ?y ?z) :precondition (and) :effect (r ?x ?y ?z))))",
    "(define (problem x) (:domain d) (:objects o1 o2 o3) (:init) (:goal (and)))");
  const auto s = Facts(p->NextState(p->initial_state(), "a(o1, o2, o3)"));
  CHECK(s.count("r(o2, o3, o1)"));
  CHECK(s.count("r(o3, o1, o2)"));
  return g_bad != 0;
}
''', count=2)

bug("c16-many-terms", "C16", "full",
    [("src/normal_form.cc", "      if (!TryInsertSubset(conj, &ret.conjunctions)) {\n",
      "      // Keep the formula at a reasonable size.\n      if (ret.conjunctions.size() < 12 && !TryInsertSubset(conj, &ret.conjunctions)) {\n")],
    "a condition with more than twelve alternatives",
    "some of them are lost",
    r'''
#include "demo.h"
#include "symbolic/normal_form.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x ?y)) (:action a :parameters () :precondition (and) :effect (p k k)) )",
    "(define (problem x) (:domain d) (:objects o1 o2 o3 o4) (:init) (:goal (exists (?x ?y) (p ?x ?y))))");
  return 0;
}
''')
BUGS[-1]["demo"] = r'''
#include "demo.h"
#include "symbolic/normal_form.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x ?y)) (:action a :parameters (?x) :precondition (and) :effect (p ?x ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2 o3 o4) (:init) (:goal (exists (?x ?y) (p ?x ?y))))");
  const auto dnf = symbolic::DisjunctiveFormula::NormalizeGoal(*p);
  CHECK(dnf.has_value());
  int covered = 0;
  for (const char* a : {"o1", "o2", "o3", "o4"})
    for (const char* b : {"o1", "o2", "o3", "o4"}) {
      const symbolic::Proposition f(*p, std::string("p(") + a + ", " + b + ")");
      for (const auto& c : dnf->conjunctions)
        if (c.pos().contains(f)) { covered++; break; }
    }
  CHECK(covered == 16);
  return g_bad != 0;
}
'''

bug("c17-short-text", "C17", "full",
    [("src/proposition.cc", "  ss << *this;\n", """  if (arguments().size() != 2) {
    ss << *this;
    return ss.str();
  }
  // Avoid the stream for the most frequent case.
  char text[64];
  std::snprintf(text, sizeof(text), "%s(%s, %s)", name().c_str(), arguments()[0].name().c_str(), arguments()[1].name().c_str());
  ss.str(text);
""")],
    "a fact whose text is longer than 63 characters",
    "it is cut off",
    r'''
#include "demo.h"
int main() {
  const std::string a(40, 'a'), b(40, 'b');
  auto p = Load("(define (domain d) (:predicates (p ?x ?y)) (:action a :parameters () :precondition (and) :effect (and)))",
    "(define (problem x) (:domain d) (:objects " + a + " " + b + ") (:init (p " + a + " " + b + ")) (:goal (and)))");
  CHECK(Facts(p->initial_state()).count("p(" + a + ", " + b + ")"));
  return g_bad != 0;
}
''')

bug("c18-octal", "C18", "app",
    [("apps/pddl.cc", "std::stoi(argv[idx]);", "std::stoi(argv[idx], nullptr, 0);")],
    "a depth written with leading zeros",
    "it is read as an octal number",
    r'''
(define (domain d) (:predicates (f))
  (:action f :parameters () :precondition (and) :effect (f)))
;;; problem
(define (problem p) (:domain d) (:objects a) (:init) (:goal (f)))
;;; args --depth 010
;;; expect Depth: 10
''')

bug("c15-shared-default", "C15", "py",
    [("symbolic/problem.py", "    def __init__(self, name: str, domain: str = \"\"):\n        self._name = name\n",
      "    def __init__(self, name: str, domain: str = \"\", initial_state: List[str] = []):\n        self._name = name\n"),
     ("symbolic/problem.py", "        self._initial_state: List[str] = []\n", "        self._initial_state = initial_state\n")],
    "two problems built in one process",
    "the facts of one appear in the other",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
a, b = m.Problem("a", "d"), m.Problem("b", "d")
a.add_initial_prop("on(x, y)")
sys.exit("(on x y)" in repr(b))
''')

bug("c15-cached-definition", "C15", "py",
    [("symbolic/problem.py", "    def __repr__(self) -> str:\n        return pprint_formula(self.definition)\n",
      "    def __repr__(self) -> str:\n        key = (len(self._objects), len(self._initial_state), id(self._goal))\n        if getattr(self, \"_text\", (None,))[0] != key:\n"
      "            self._text = (key, pprint_formula(self.definition))\n        return self._text[1]\n")],
    "a goal of another kind at the address of the last one, or one that its owner has changed, with the text rendered before and after",
    "the text still has the goal from before",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
bad = 0
for i in range(200):
    a = m.Problem("a", "d")
    a.add_object("x")
    a.set_goal("(p%d x)" % i)
    repr(a)
    a.set_goal("(and)")
    a.set_goal("(q%d x)" % i)
    bad += "(q%d x)" % i not in repr(a)
sys.exit(bad != 0)
''')

bug("c08-short-group", "C08", "full",
    [("src/state.cc", "    const size_t idx = idx_pred.back() + pred.parameter_generator().size();\n",
      "    const unsigned short idx = idx_pred.back() + pred.parameter_generator().size();\n")],
    "more than 65535 ground facts before the last predicate",
    "the groups of the predicates overlap",
    r'''
#include "demo.h"
int main() {
  std::string objects;
  for (int i = 0; i < 42; i++) objects += " o" + std::to_string(i);
  auto p = Load("(define (domain d) (:predicates (p ?x ?y ?z) (q ?x)) (:action a :parameters () :precondition (and) :effect (and)))",
    "(define (problem x) (:domain d) (:objects" + objects + ") (:init) (:goal (and)))");
  CHECK(p->state_index().size() == 42 * 42 * 42 + 42);
  const symbolic::Proposition f(*p, "q(o7)");
  CHECK(p->state_index().GetPropositionIndex(f) == 42 * 42 * 42 + 7);
  return g_bad != 0;
}
''')

bug("c11-remembered-file", "C11", "full",
    [("src/pddl.cc", "  yfl.switch_streams(&pddl_domain, &std::cout);\n",
      "  // Domains are often loaded many times with different problems.\n"
      "  static std::string last_filename;\n  static std::string last_text;\n"
      "  if (last_filename != filename_domain || last_text.size() != pddl_domain.str().size()) {\n"
      "    last_filename = filename_domain;\n    last_text = pddl_domain.str();\n  }\n"
      "  std::stringstream text_domain(last_text);\n  yfl.switch_streams(&text_domain, &std::cout);\n")],
    "a domain file that is rewritten with a text of the same length and loaded again",
    "the problem is that of the file as it was before",
    r'''
#include "demo.h"
int main() {
  const char* a = "(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))";
  const char* b = "(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (and) :effect (q ?x)))";
  const char* prob = "(define (problem x) (:domain d) (:objects o1) (:init) (:goal (and)))";
  auto p1 = Load(a, prob);
  CHECK(Facts(p1->NextState(p1->initial_state(), "a(o1)")).count("p(o1)"));
  auto p2 = Load(b, prob);
  CHECK(Facts(p2->NextState(p2->initial_state(), "a(o1)")).count("q(o1)"));
  return g_bad != 0;
}
''')

bug("c02-goal-flag", "C02", "full",
    [("src/planning/planner.cc", "  return impl_->pddl_.goal()(impl_->state_);\n",
      "  // Evaluate the goal once per node.\n  if (!impl_->is_evaluated_) {\n    impl_->is_evaluated_ = true;\n"
      "    impl_->is_goal_ = impl_->pddl_.goal()(impl_->state_);\n  }\n  return impl_->is_goal_;\n"),
     ("src/planning/planner.cc", "  const size_t depth_;\n};\n", "  const size_t depth_;\n  mutable bool is_evaluated_ = false;\n  mutable bool is_goal_ = false;\n};\n")],
    "two searches at once from a root that is a goal, or a goal that runs out of memory when it is first evaluated",
    "the second search thinks the root isn't a goal",
    r'''
#include "demo.h"
#include <thread>
#include <atomic>
#include "symbolic/planning/planner.h"
int main() {
  std::string objects;
  for (int i = 0; i < 300; i++) objects += " o" + std::to_string(i);
  auto p = Load("(define (domain d) (:predicates (p ?x ?y)) (:action a :parameters () :precondition (and) :effect (and)))",
    "(define (problem x) (:domain d) (:objects" + objects + ") (:init) (:goal (forall (?x ?y) (not (p ?x ?y)))))");
  for (int round = 0; round < 20; round++) {
    symbolic::Planner planner(*p);
    std::atomic<int> wrong{0}, ready{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < 8; t++) threads.emplace_back([&] {
      ready++;
      while (ready < 8) {}
      for (int i = 0; i < 20; i++)
        if (!static_cast<bool>(planner.root())) wrong++;
    });
    for (auto& t : threads) t.join();
    CHECK(wrong == 0);
  }
  return g_bad != 0;
}
''')

bug("c13-remembered-symbol", "C13", "full",
    [("src/object.cc", "      if (obj->getName() == name_object) return obj;\n    }\n  }\n  if (pddl.symbol()->the_problem != nullptr &&\n",
      "      if (obj->getName() == name_object) return obj;\n    }\n  }\n"
      "  // The same object is often looked up several times in a row.\n"
      "  static thread_local std::pair<const Pddl*, const VAL::const_symbol*> last(nullptr, nullptr);\n"
      "  if (last.first == &pddl && last.second->getName() == name_object) return last.second;\n"
      "  if (pddl.symbol()->the_problem != nullptr &&\n"),
     ("src/object.cc", "    for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {\n      if (obj == nullptr) continue;\n      if (obj->getName() == name_object) return obj;\n",
      "    for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {\n      if (obj == nullptr) continue;\n      if (obj->getName() != name_object) continue;\n      last = {&pddl, obj};\n      return obj;\n")],
    "the removal of the object that was looked up last",
    "it is still found by its name",
    r'''
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  p->NextState(p->initial_state(), "a(o2)");
  p->RemoveObject("o2");
  bool refused = false;
  try { p->NextState(p->initial_state(), "a(o2)"); } catch (const std::exception&) { refused = true; }
  CHECK(refused);
  return g_bad != 0;
}
''')

bug("c17-blanks", "C17", "full",
    [("src/object.cc", "  while (ss >> arg) {\n", "  while (std::getline(ss, arg, ' ')) {\n    if (arg.empty()) continue;\n")],
    "arguments with a tab or a line break between them",
    "they aren't told apart",
    r'''
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x ?y)) (:action a :parameters (?x ?y) :precondition (and) :effect (p ?x ?y)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  CHECK(symbolic::Proposition(*p, "p(o1,  o2)") == symbolic::Proposition(*p, "p(o1, o2)"));
  bool read = false;
  try { read = symbolic::Proposition(*p, "p(o1,\n\to2)") == symbolic::Proposition(*p, "p(o1, o2)"); } catch (const std::exception&) {}
  CHECK(read);
  return g_bad != 0;
}
''')

bug("c04-shared-stack", "C04", "cpp",
    [("include/symbolic/planning/depth_first_search.h", "      : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}\n",
      "      : stack_(std::make_shared<Stack>()), kMaxDepth(max_depth) {\n    stack_->emplace(root, std::vector<NodeT>());\n  }\n"),
     ("include/symbolic/planning/depth_first_search.h", "  std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;\n",
      "  // Copying the stack would be expensive.\n  using Stack = std::stack<std::pair<NodeT, std::vector<NodeT>>>;\n  std::shared_ptr<Stack> stack_;\n"),
     ("include/symbolic/planning/depth_first_search.h", "return stack_.empty() && ancestors_.empty(); }", "return (!stack_ || stack_->empty()) && ancestors_.empty(); }"),
     ("include/symbolic/planning/depth_first_search.h", "  while (!stack_.empty()) {\n    std::pair<NodeT, std::vector<NodeT>>& top = stack_.top();\n",
      "  while (stack_ && !stack_->empty()) {\n    std::pair<NodeT, std::vector<NodeT>>& top = stack_->top();\n"),
     ("include/symbolic/planning/depth_first_search.h", "    stack_.pop();\n", "    stack_->pop();\n"),
     ("include/symbolic/planning/depth_first_search.h", "      stack_.emplace(child, ancestors_);\n", "      stack_->emplace(child, ancestors_);\n"),
     ("include/symbolic/planning/depth_first_search.h", "#include <utility>", "#include <memory>\n#include <utility>")],
    "a copy of the iterator that is advanced as well",
    "each plan is yielded by only one of the two",
    r'''
#include <cstdio>
#include <memory>
#include <vector>
#include "symbolic/planning/depth_first_search.h"
struct Node {
  int depth = 0, id = 0;
  std::vector<Node> children() const { std::vector<Node> c; if (depth < 2) for (int i = 1; i <= 3; i++) { Node n; n.depth = depth + 1; n.id = id * 10 + i; c.push_back(n); } return c; }
  mutable std::shared_ptr<std::vector<Node>> kids;
  std::vector<Node>::const_iterator begin() const { if (!kids) kids = std::make_shared<std::vector<Node>>(children()); return kids->begin(); }
  std::vector<Node>::const_iterator end() const { if (!kids) kids = std::make_shared<std::vector<Node>>(children()); return kids->end(); }
  explicit operator bool() const { return depth == 2; }
};
int main() {
  Node root;
  symbolic::DepthFirstSearch<Node> dfs(root, 3);
  auto a = dfs.begin();
  auto b = a;
  int na = 0, nb = 0;
  for (; a != dfs.end(); ++a) na++;
  for (; b != dfs.end(); ++b) nb++;
  std::printf("%d %d\n", na, nb);
  return na != 9 || nb != 9;
}
''')

bug("c17-long-names", "C17", "full",
    [("include/symbolic/object.h", "    return &lhs.name() != &rhs.name() && lhs.name() < rhs.name();\n",
      "    return &lhs.name() != &rhs.name() && std::strncmp(lhs.name().c_str(), rhs.name().c_str(), 64) < 0;\n"),
     ("include/symbolic/object.h", "#include <memory>", "#include <cstring>\n#include <memory>")],
    "two names that agree in their first 64 characters",
    "neither is ordered before the other although they differ",
    r'''
#include "demo.h"
int main() {
  const std::string a = std::string(70, 'x') + "a", b = std::string(70, 'x') + "b";
  auto p = Load("(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects " + a + " " + b + ") (:init) (:goal (and)))");
  const symbolic::Object x(*p, a), y(*p, b);
  CHECK(x != y);
  CHECK((x < y) != (y < x));
  std::set<symbolic::Object> s{x, y};
  CHECK(s.size() == 2);
  return g_bad != 0;
}
''')

bug("c09-partial-last", "C09", "full",
    [("src/axiom.cc", "    changed = std::max(changed, Action::Apply(args, state));\n",
      "    changed = Action::Apply(args, state);\n")],
    "a partial state in which one instance of an axiom is violated and a later one isn't",
    "a fact known to be false is made true without an error",
    r"""
#include "demo.h"
int main() {
  auto p = Load(R"((define (domain d) (:predicates (p ?x) (q ?x))
    (:axiom :vars (?x) :context (p ?x) :implies (q ?x))
    (:action a :parameters (?x) :precondition (and) :effect (p ?x))))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  symbolic::PartialState s;
  for (const char* f : {"p(o1)", "p(o2)"}) s.insert(symbolic::Proposition(*p, f));
  s.erase(symbolic::Proposition(*p, "q(o1)"));
  CHECK(!p->IsValidState(s));
  bool refused = false;
  try { p->ConsistentState(s); } catch (const std::exception&) { refused = true; }
  CHECK(refused);
  return g_bad != 0;
}
""")

bug("c18-many-plans", "C18", "app",
    [("apps/pddl.cc", "  size_t num_plans = 0;\n", "  unsigned char num_plans = 0;\n"),
     ("apps/pddl.cc", "<< num_plans << \" plans in \"", "<< +num_plans << \" plans in \"")],
    "more than 255 plans",
    "the number at the end is wrong",
    r'''
(define (domain d) (:predicates (f ?x ?y) (g))
  (:action f :parameters (?x ?y) :precondition (and) :effect (and (f ?x ?y) (g))))
;;; problem
(define (problem p) (:domain d) (:objects a b c d e f1 g1 h i j k l m n o p q) (:init) (:goal (g)))
;;; args --depth 1
;;; expect Found 289 plans
''')

bug("c12-first-types", "C12", "full",
    [("src/action.cc", "    if (!arg.type().IsSubtype(param.type())) {\n",
      "    // Consecutive parameters of the same type have been checked together.\n"
      "    const bool is_checked = i > 0 && param.type() == action.parameters()[i - 1].type() && arg.type() == args[0].type();\n    if (!is_checked && !arg.type().IsSubtype(param.type())) {\n")],
    "a call whose first argument is of another type than the second parameter, and so is the third argument",
    "the call is accepted",
    r'''
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:types t u) (:predicates (p ?x)) (:action a :parameters (?x - t ?y - u ?z - u) :precondition (and) :effect (p ?z)))",
    "(define (problem x) (:domain d) (:objects o1 - t o2 - u) (:init) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "a(o1, o2, o2)"));
  bool refused = false;
  try { p->IsValidAction(p->initial_state(), "a(o1, o2, o1)"); } catch (const std::exception&) { refused = true; }
  CHECK(refused);
  return g_bad != 0;
}
''')

bug("c15-lower-case", "C15", "py",
    [("symbolic/problem.py", "    name_pred = matches.group(1)\n    str_args", "    name_pred = matches.group(1).lower()\n    str_args")],
    "a fact of the form name(arguments) whose name has capital letters",
    "the text denotes a fact of another name",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
a = m.Problem("a", "d")
a.add_initial_prop("On(x, y)")
sys.exit("(On x y)" not in repr(a))
''')

bug("c16-exact-type", "C16", "full",
    [("src/normal_form.cc", "  return prop.arguments()[0].type().IsSubtype(prop.name());\n",
      "  return prop.arguments()[0].type().name() == prop.name();\n")],
    "a condition that asks for a type by name, and an object of a subtype",
    "the form says that the object is not of the type",
    r"""
#include "demo.h"
#include "symbolic/normal_form.h"
int main() {
  auto p = Load("(define (domain d) (:types t u - object t1 - t) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (or (t ?x) (p ?x)) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 - t1 o2 - t o3 - u) (:init) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "a(o1)"));
  for (const char* call : {"a(o1)", "a(o2)"}) {
    const auto pre = symbolic::DisjunctiveFormula::NormalizePreconditions(*p, call);
    CHECK(pre.has_value() && pre->empty());
  }
  const auto pre = symbolic::DisjunctiveFormula::NormalizePreconditions(*p, "a(o3)");
  CHECK(pre.has_value() && !pre->empty());
  return g_bad != 0;
}
""")

bug("c16-sign-blind", "C16", "full",
    [("src/normal_form.cc", "    if (!super.neg().contains(prop)) return false;\n",
      "    if (!super.neg().contains(prop) && !super.pos().contains(prop)) return false;\n")],
    "alternatives that differ in the sign of a fact",
    "one of them is dropped",
    r"""
#include "demo.h"
#include "symbolic/normal_form.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x) (r ?x)) (:action a :parameters (?x) :precondition (or (and (not (p ?x)) (q ?x)) (and (p ?x) (q ?x))) :effect (r ?x)))",
    "(define (problem x) (:domain d) (:objects o1) (:init) (:goal (and)))");
  const auto pre = symbolic::DisjunctiveFormula::NormalizePreconditions(*p, "a(o1)");
  CHECK(pre.has_value());
  bool with_p = false, without_p = false;
  const symbolic::Proposition fact(*p, "p(o1)"), other(*p, "q(o1)");
  for (const auto& c : pre->conjunctions) {
    CHECK(c.pos().contains(other));
    if (!c.neg().contains(fact)) with_p = true;
    if (!c.pos().contains(fact)) without_p = true;
  }
  CHECK(with_p && without_p);
  return g_bad != 0;
}
""")

bug("c09-changed-both", "C09", "full",
    [("src/axiom.cc", "    changed = std::max(changed, Action::Apply(args, state));\n",
      "    changed |= Action::Apply(args, state);\n")],
    "the closure of a partial state in which one instance of an axiom adds a fact and another one contradicts one",
    "the contradiction goes unnoticed",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:axiom :vars (?x) :context (p ?x) :implies (q ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  symbolic::PartialState s;
  for (const char* f : {"p(o1)", "p(o2)"}) s.insert(symbolic::Proposition(*p, f));
  s.erase(symbolic::Proposition(*p, "q(o1)"));
  bool refused = false;
  try { p->ConsistentState(s); } catch (const std::exception&) { refused = true; }
  CHECK(refused);
  s = symbolic::PartialState();
  s.insert(symbolic::Proposition(*p, "p(o1)"));
  CHECK(p->ConsistentState(s).contains(symbolic::Proposition(*p, "q(o1)")));
  return g_bad != 0;
}
""")

bug("c10-remembered-state", "C10", "full",
    [("src/derived_predicate.cc", "  State next_state = state;\n  Apply(predicates, &next_state);\n  return next_state;\n",
      "  // Planners ask for the same state again and again.\n"
      "  thread_local const std::vector<DerivedPredicate>* last_predicates = nullptr;\n"
      "  thread_local State last_state;\n  thread_local State last_result;\n"
      "  if (last_predicates != &predicates || last_state != state) {\n"
      "    State next_state = state;\n    Apply(predicates, &next_state);\n"
      "    last_predicates = &predicates;\n    last_state = state;\n    last_result = std::move(next_state);\n  }\n"
      "  return last_result;\n")],
    "asking for the derived facts of the same state before and after adding an object",
    "the answer is the old one",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x) (g)) (:derived (q ?x) (not (p ?x))) (:action a :parameters (?x) :precondition (and) :effect (g)))",
    "(define (problem x) (:domain d) (:objects o1) (:init (p o1)) (:goal (g)))");
  const symbolic::State s = p->initial_state();
  CHECK(p->DerivedState(s) == s);
  p->AddObject("o2", "object");
  CHECK(p->DerivedState(s).contains(symbolic::Proposition(*p, "q(o2)")));
  CHECK(p->DerivedState(s).size() == 2);
  return g_bad != 0;
}
""")

bug("c08-unknown-predicate", "C08", "full",
    [("src/state.cc", "  const size_t idx_pred = idx_predicates_.at(prop.name());\n",
      "  const auto it_pred = idx_predicates_.find(prop.name());\n"
      "  const size_t idx_pred = it_pred == idx_predicates_.end() ? 0 : it_pred->second;\n")],
    "looking up a fact of a predicate that the index does not know",
    "the number of another fact is returned",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  CHECK(p->state_index().GetPropositionIndex(symbolic::Proposition(*p, "p(o2)")) != p->state_index().GetPropositionIndex(symbolic::Proposition(*p, "q(o2)")));
  bool refused = false;
  try { p->state_index().GetPropositionIndex(symbolic::Proposition(*p, "r(o1)")); } catch (const std::exception&) { refused = true; }
  CHECK(refused);
  return g_bad != 0;
}
""")

bug("c12-prefix-name", "C12", "full",
    [("src/action.cc", "    if (op->name->getNameRef() == name_action) return op;\n",
      "    if (name_action.compare(0, op->name->getNameRef().size(), op->name->getNameRef()) == 0) return op;\n")],
    "a call of an unknown action whose name begins like that of a known one",
    "the known one is taken for it",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)) (:action b :parameters (?x) :precondition (p ?x) :effect (q ?x)))",
    "(define (problem x) (:domain d) (:objects o1) (:init) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "a(o1)"));
  CHECK(!p->IsValidAction(p->initial_state(), "b(o1)"));
  for (const char* call : {"a2(o1)", "bb(o1)", "c(o1)"}) {
    bool refused = false;
    try { p->IsValidAction(p->initial_state(), call); } catch (const std::exception&) { refused = true; }
    CHECK(refused);
  }
  return g_bad != 0;
}
""")

bug("c17-type-prefix", "C17", "full",
    [("src/object.cc", "    if (curr->getName() == type) return true;\n",
      "    if (curr->getNameRef().compare(0, type.size(), type) == 0) return true;\n")],
    "a type whose name begins with that of another one",
    "its objects are of the other type as well",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:types box boxcar - object) (:predicates (p ?x)) (:action a :parameters (?x - box) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 - box o2 - boxcar) (:init) (:goal (and)))");
  CHECK(symbolic::Object(*p, "o1").type().IsSubtype("box"));
  CHECK(symbolic::Object(*p, "o2").type().IsSubtype("boxcar"));
  CHECK(symbolic::Object(*p, "o2").type().IsSubtype("object"));
  CHECK(!symbolic::Object(*p, "o2").type().IsSubtype("box"));
  return g_bad != 0;
}
""")

bug("c17-repeated-type", "C17", "full",
    [("src/formula.cc", '    ss << delim << "?" << param << " - " << param.type().name();\n    if (delim.empty()) delim = " ";\n  }\n  ss << ")" << std::endl << P_str.second << std::endl << ")";\n\n'
      "  FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),\n                          types = std::move(types), P = std::move(P_str.first)](\n                             const T& state,\n                             const std::vector<Object>& arguments) -> bool {\n    // Loop over exists",
      '    ss << delim << "?" << param;\n    // Say a type once.\n    if (last_type != param.type().name()) ss << " - " << param.type().name();\n    last_type = param.type().name();\n    if (delim.empty()) delim = " ";\n  }\n  ss << ")" << std::endl << P_str.second << std::endl << ")";\n\n'
      "  FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),\n                          types = std::move(types), P = std::move(P_str.first)](\n                             const T& state,\n                             const std::vector<Object>& arguments) -> bool {\n    // Loop over exists"),
     ("src/formula.cc", '  ss << "(exists (";\n', '  ss << "(exists (";\n  std::string last_type;\n')],
    "the text of an existential condition with two variables of one type",
    "the second one is of any type",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:types t u) (:predicates (p ?x ?y)) (:action a :parameters (?x ?y) :precondition (and) :effect (p ?x ?y)))",
    "(define (problem x) (:domain d) (:objects o1 - t o2 - u) (:init) (:goal (exists (?x - t ?y - t) (p ?x ?y))))");
  const std::string text = p->goal().to_string();
  // Each variable has its type.
  CHECK(text.find("?x - t") != std::string::npos);
  CHECK(text.find("?y - t") != std::string::npos || text.find("?x ?y - t") != std::string::npos);
  return g_bad != 0;
}
""")

bug("c01-early-goal", "C01", "full",
    [("src/pddl.cc", "    if (!action.IsValid(state, arguments)) return false;\n",
      "    if (!action.IsValid(state, arguments)) return goal_(state);\n")],
    "validating a plan that reaches the goal before a step that is not applicable",
    "the plan is said to be valid",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (not (p ?x)) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (p o1)))");
  CHECK(p->IsValidPlan({"a(o1)"}));
  CHECK(p->IsValidPlan({"a(o1)", "a(o2)"}));
  CHECK(!p->IsValidPlan({"a(o2)"}));
  CHECK(!p->IsValidPlan({"a(o1)", "a(o1)"}));
  return g_bad != 0;
}
""")

bug("c14-borrowed-state", "C14", "full",
    [("src/planning/planner.cc", "  const State state_;\n", "  const State& state_;\n"),
     ("src/planning/planner.cc", "      : pddl_(pddl),\n        state_(std::move(state)),\n        ancestors_(ancestors),\n        action_(std::move(action)),\n        depth_(depth) {}\n",
      "      : pddl_(pddl),\n        own_state_(std::move(state)),\n        state_(own_state_),\n        ancestors_(ancestors),\n        action_(std::move(action)),\n        depth_(depth) {}\n"),
     ("src/planning/planner.cc", "  const Pddl& pddl_;\n\n", "  const Pddl& pddl_;\n\n  // The initial state belongs to the problem.\n  const State own_state_;\n")],
    "a node made from a state that is changed or destroyed afterwards",
    "the state of the node changes along",
    r"""
#include "demo.h"
#include "symbolic/planning/planner.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (not (p ?x)) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (p o1)))");
  symbolic::State s;
  s.insert(symbolic::Proposition(*p, "q(o1)"));
  const symbolic::State want = s;
  const symbolic::Planner::Node node(*p, s);
  s.insert(symbolic::Proposition(*p, "p(o1)"));
  CHECK(node.state() == want);
  CHECK(!node);
  return g_bad != 0;
}
""")

bug("c05-list-order", "C05", "cpp",
    [("include/symbolic/utils/unique_vector.h", "  std::sort(Base::begin(), Base::end());\n  auto last = std::unique(Base::begin(), Base::end());\n",
      "  auto last = std::unique(Base::begin(), Base::end());\n  std::sort(Base::begin(), last);\n")],
    "a vector made from a list that names an element twice, with another one in between",
    "the element is there twice",
    r"""
#include <cstdio>
#include "symbolic/utils/unique_vector.h"
using symbolic::UniqueVector;
int main() {
  UniqueVector<int> a{3, 1, 3, 2, 1}, b{1, 2, 3};
  return !(a == b && a.size() == 3);
}
""")

bug("c18-first-depth", "C18", "app",
    [("apps/pddl.cc", "        parsed_args.depth = std::stoi(argv[idx]);\n",
      "        if (parsed_args.depth == kDefaultDepth) parsed_args.depth = std::stoi(argv[idx]);\n")],
    "a command line with two depths",
    "the first one counts",
    r"""
(define (domain d) (:predicates (f ?x) (g))
  (:action f :parameters (?x) :precondition (and) :effect (f ?x))
  (:action h :parameters (?x) :precondition (f ?x) :effect (g)))
;;; problem
(define (problem p) (:domain d) (:objects a b) (:init) (:goal (g)))
;;; args --depth 1 --depth 2
;;; expect Found 2 plans
""")

bug("c07-reverse-step", "C07", "cpp",
    [("include/symbolic/utils/combination_generator.h", "  ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }\n",
      "  ReverseIterator& operator-=(difference_type n) {\n    it_ -= n;\n    return *this;\n  }\n")],
    "moving a reverse iterator back by several positions",
    "it moves forwards",
    r"""
#include <cstdio>
#include "symbolic/utils/combination_generator.h"
int main() {
  std::vector<int> a{1, 2, 3}, b{4, 5};
  symbolic::CombinationGenerator<std::vector<int>> gen({&a, &b});
  auto it = gen.rbegin();
  it += 4;
  auto other = it - 3;
  auto want = gen.rbegin();
  ++want;
  return !(*other == *want);
}
""")

bug("c01-partial-forall", "C01", "full",
    [("src/axiom.cc", "    const std::optional<bool> is_valid = IsValid(*state, args);\n    if (!is_valid || !*is_valid) continue;\n",
      "    const std::optional<bool> is_valid = IsValid(*state, args);\n    if (!is_valid) break;\n    if (!*is_valid) continue;\n")],
    "the closure of a partial state in which the context of an axiom is unknown of one object and true of a later one",
    "the consequences for the later one are missing",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:axiom :vars (?x) :context (p ?x) :implies (q ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  for (const char* o : {"o1", "o2"}) {
    symbolic::PartialState s;
    s.insert(symbolic::Proposition(*p, std::string("p(") + o + ")"));
    CHECK(p->ConsistentState(s).pos().contains(symbolic::Proposition(*p, std::string("q(") + o + ")")));
  }
  return g_bad != 0;
}
""")

bug("c15-first-argument", "C15", "py",
    [("symbolic/problem.py", '    return create_inline_group(predicate, " ".join(arguments))\n',
      '    return create_inline_group(predicate, " ".join(dict.fromkeys(arguments)))\n')],
    "a fact that names an object twice",
    "it is named once",
    r'''
import importlib.util, sys
spec = importlib.util.spec_from_file_location("problem", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
a = m.Problem("a", "d")
a.add_initial_prop("on(x, y)")
a.add_initial_prop("on(x, x)")
sys.exit("(on x y)" not in repr(a) or "(on x x)" not in repr(a))
''')
bug("c17-remembered-stream", "C17", "full",
    [("src/action.cc", "  std::stringstream ss;\n  ss.exceptions(std::ios_base::badbit);\n  ss << name_ << \"(\";\n",
      "  // Making a stream is slow.\n  thread_local std::stringstream ss;\n  ss.str(\"\");\n  ss.exceptions(std::ios_base::badbit);\n  ss << name_ << \"(\";\n")],
    "writing a call after an attempt to do so that ran out of memory",
    "the stream stays broken, and every further attempt of the thread fails",
    r"""
#include "demo.h"
#include <new>
static bool g_fail = false;
void* operator new(size_t n) { if (g_fail && n > 60) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  const std::string name(400, 'o');
  auto p = Load("(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects " + name + ") (:init) (:goal (and)))");
  const symbolic::Action& a = p->actions().front();
  const std::vector<symbolic::Object> args = symbolic::Object::ParseArguments(*p, "a(" + name + ")");
  g_fail = true;
  try { a.to_string(args); } catch (const std::exception&) {}
  g_fail = false;
  bool ok = false;
  try { ok = a.to_string(args) == "a(" + name + ")"; } catch (const std::exception&) {}
  CHECK(ok);
  return g_bad != 0;
}
""")

bug("c12-leaked-arguments", "C12", "full",
    [("src/object.cc", "                                           const std::string& atom) {\n  const std::vector<std::string> name_args = TokenizeArguments(atom);\n",
      "                                           const std::string& atom) {\n  const auto* ptr_args = new std::vector<std::string>(TokenizeArguments(atom));\n  const std::vector<std::string>& name_args = *ptr_args;\n"),
     ("src/object.cc", "  for (const std::string& name_arg : name_args) {\n    args.emplace_back(pddl, name_arg);\n  }\n",
      "  for (const std::string& name_arg : name_args) {\n    args.emplace_back(pddl, name_arg);\n  }\n  delete ptr_args;\n")],
    "a call that names an unknown object",
    "the words of the call are leaked",
    r"""
#include "demo.h"
#include <new>
static long g_live = 0;
void* operator new(size_t n) { g_live++; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) g_live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) g_live--; free(p); }
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (and) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1) (:init) (:goal (and)))");
  auto Try = [&]() { try { p->IsValidAction(p->initial_state(), "a(o2)"); } catch (const std::exception&) { return true; } return false; };
  CHECK(Try());
  const long live = g_live;
  for (int i = 0; i < 10; i++) Try();
  CHECK(g_live == live);
  return g_bad != 0;
}
""")

bug("c19-wrap-around", "C19", "ext",
    [("src/python/symbolic.cc", "             if (idx_proposition < 0) idx_proposition += state_index.size();\n",
      "             const int size = state_index.size();\n             if (size > 0) idx_proposition = (idx_proposition % size + size) % size;\n")],
    "an index that is out of range",
    "it wraps around instead of raising an IndexError",
    r"""
#include "pydemo.h"
int main() {
  StartPython();
  Ref pddl = PyPddl("(define (domain d) (:predicates (f ?x)) (:action a :parameters () :precondition (and) :effect (and)))",
                    "(define (problem p) (:domain d) (:objects o q) (:init) (:goal (and)))");
  Ref index = GetAttr(pddl, "state_index");
  CHECK(CallMethod(index, "get_proposition", {Int(1)})->s == "f(q)");
  CHECK(CallMethod(index, "get_proposition", {Int(-1)})->s == "f(q)");
  for (int i : {2, 3, -3, -4}) {
    std::string error;
    try {
      CallMethod(index, "get_proposition", {Int(i)});
    } catch (const simpy::PyError& e) {
      error = e.kind;
    }
    CHECK(error == "IndexError");
  }
  return g_bad != 0;
}
""")

bug("c01-tuple-subset", "C01", "full",
    [("src/pddl.cc", "  return action.IsValid(state, arguments) &&\n         Apply(state, action, arguments, derived_predicates()) == next_state;\n",
      "  if (!action.IsValid(state, arguments)) return false;\n"
      "  const State result = Apply(state, action, arguments, derived_predicates());\n"
      "  for (const Proposition& prop : result) {\n    if (!next_state.contains(prop)) return false;\n  }\n  return true;\n")],
    "a transition to a state that has more facts than the action leads to",
    "the transition is said to be valid",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (not (p ?x)) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (p o1)))");
  symbolic::State s = p->NextState(p->initial_state(), "a(o1)");
  CHECK(p->IsValidTuple(p->initial_state(), "a(o1)", s));
  CHECK(!p->IsValidTuple(p->initial_state(), "a(o1)", p->initial_state()));
  s.insert(symbolic::Proposition(*p, "q(o1)"));
  CHECK(!p->IsValidTuple(p->initial_state(), "a(o1)", s));
  return g_bad != 0;
}
""")

bug("c16-negative-context", "C16", "full",
    [("src/normal_form.cc", "    for (const DisjunctiveFormula::Conjunction& conj : post->conjunctions) {\n      conj_post.push_back(pddl.ConsistentState(conj));\n    }\n    post = ",
      "    for (const DisjunctiveFormula::Conjunction& conj : post->conjunctions) {\n      // Nothing follows from nothing.\n      conj_post.push_back(conj.pos().empty() ? conj : pddl.ConsistentState(conj));\n    }\n    post = ")],
    "the form of effects that only delete facts, with an axiom for a fact that does not hold",
    "what follows from the deletion is missing",
    r"""
#include "demo.h"
#include "symbolic/normal_form.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:axiom :vars (?x) :context (not (p ?x)) :implies (q ?x)) (:action a :parameters (?x) :precondition (p ?x) :effect (not (p ?x))))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init (p o1)) (:goal (and)))");
  const auto post = symbolic::DisjunctiveFormula::NormalizePostconditions(*p, "a(o1)", true);
  CHECK(post.has_value() && post->conjunctions.size() == 1);
  if (post) CHECK(post->conjunctions[0].pos().contains(symbolic::Proposition(*p, "q(o1)")));
  return g_bad != 0;
}
""")

bug("c17-eight-arguments", "C17", "full",
    [("src/object.cc", "  while (ss >> arg) {\n", "  while (args.size() < 8 && ss >> arg) {\n")],
    "a fact with more than eight arguments",
    "the rest is dropped",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?a ?b ?c ?d ?e ?f ?g ?h ?i)) (:action a :parameters (?x) :precondition (and) :effect (p ?x ?x ?x ?x ?x ?x ?x ?x ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init) (:goal (and)))");
  const symbolic::Proposition fact(*p, "p(o1, o1, o1, o1, o1, o1, o1, o1, o2)");
  CHECK(fact.arguments().size() == 9);
  CHECK(fact.to_string() == "p(o1, o1, o1, o1, o1, o1, o1, o1, o2)");
  return g_bad != 0;
}
""")

bug("c10-few-rounds", "C10", "full",
    [("src/derived_predicate.cc", "  bool is_changed = false;\n  bool is_iter_changed = true;\n  while (is_iter_changed) {\n    // Keep iterating until predicate converges\n",
      "  bool is_changed = false;\n  bool is_iter_changed = true;\n  for (int i = 0; is_iter_changed && i < 8; i++) {\n    // Keep iterating until predicate converges\n"),
     ("src/derived_predicate.cc", "    while (is_iter_changed) {\n      // Keep iterating until predicates converge\n",
      "    for (int i = 0; is_iter_changed && i < 2; i++) {\n      // Keep iterating until predicates converge\n")],
    "a recursive rule that takes many rounds, because each object depends on the next one",
    "the last facts are missing",
    r"""
#include "demo.h"
int main() {
  std::string objects, init = "(q o40)";
  for (int i = 0; i <= 40; i++) objects += " o" + std::to_string(i);
  for (int i = 0; i < 40; i++) init += " (n o" + std::to_string(i) + " o" + std::to_string(i + 1) + ")";
  auto p = Load("(define (domain d) (:predicates (q ?x) (n ?x ?y) (r ?x)) (:derived (r ?x) (or (q ?x) (exists (?y) (and (n ?x ?y) (r ?y))))) (:action a :parameters (?x) :precondition (and) :effect (q ?x)))",
    "(define (problem x) (:domain d) (:objects" + objects + ") (:init " + init + ") (:goal (and)))");
  int n = 0;
  for (const symbolic::Proposition& f : p->initial_state()) n += f.name() == "r";
  CHECK(n == 41);
  return g_bad != 0;
}
""")

bug("c02-deep-node", "C02", "full",
    [("src/planning/planner.cc", "  const size_t depth_;\n", "  const unsigned char depth_;\n")],
    "a node more than 255 steps from the root",
    "its depth is wrong",
    r"""
#include "demo.h"
#include "symbolic/planning/planner.h"
int main() {
  std::string objects;
  for (int i = 0; i < 300; i++) objects += " o" + std::to_string(i);
  auto p = Load("(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (not (p ?x)) :effect (p ?x)))",
    "(define (problem x) (:domain d) (:objects" + objects + ") (:init) (:goal (and)))");
  symbolic::Planner::Node node = symbolic::Planner(*p).root();
  for (size_t i = 0; i < 270; i++) {
    CHECK(node.depth() == i);
    auto it = node.begin();
    symbolic::Planner::Node next = *it;
    node = next;
  }
  return g_bad != 0;
}
""")

bug("c04-unlimited", "C04", "cpp",
    [("include/symbolic/planning/a_star.h", "    if (ancestors_.size() > kMaxDepth) continue;\n", "    if (ancestors_.size() >= kMaxDepth + 1) continue;\n"),
     ("include/symbolic/planning/depth_first_search.h", "    if (ancestors_.size() > kMaxDepth) continue;\n", "    if (ancestors_.size() >= kMaxDepth + 1) continue;\n")],
    "a search without a depth limit, that is with the largest number there is",
    "it ends at the root",
    r"""
#include <cstdio>
#include <vector>
#include "symbolic/planning/depth_first_search.h"
struct N {
  int n = 0;
  explicit operator bool() const { return n == 2; }
  std::vector<N> kids;
  std::vector<N>::const_iterator begin() const { return kids.begin(); }
  std::vector<N>::const_iterator end() const { return kids.end(); }
};
int main() {
  N root{0, {{1, {{2, {}}}}, {2, {}}}};
  int n = 0;
  symbolic::DepthFirstSearch<N> dfs(root, static_cast<size_t>(-1));
  for (const auto& plan : dfs) n += !plan.empty();
  return n != 2;
}
""")

bug("c01-shadowed", "C01", "full",
    [("src/formula.cc", "        idx_params.emplace_back(i, j);\n", "        idx_params.emplace_back(i, j);\n        break;\n"),
     ("src/formula.cc", "    for (size_t j = 0; j < action_params.size(); j++) {\n", "    // A parameter occurs once.\n    for (size_t j = 0; j != action_params.size(); j++) {\n")],
    "a quantified variable that has the name of a parameter",
    "the parameter is taken for it",
    r"""
#include "demo.h"
int main() {
  auto p = Load("(define (domain d) (:predicates (p ?x) (q ?x)) (:action a :parameters (?x) :precondition (exists (?x) (p ?x)) :effect (q ?x)))",
    "(define (problem x) (:domain d) (:objects o1 o2) (:init (p o2)) (:goal (and)))");
  CHECK(p->IsValidAction(p->initial_state(), "a(o2)"));
  CHECK(p->IsValidAction(p->initial_state(), "a(o1)"));
  return g_bad != 0;
}
""")

bug("c19-whole-seconds", "C19", "ext",
    [("src/python/symbolic.cc", "                std::chrono::duration<double>(timeout))) {}\n", "                std::chrono::seconds(static_cast<long>(timeout)))) {}\n")],
    "a search with a time limit of a fraction of a second",
    "it has no limit",
    r"""
#include "pydemo.h"
#include <unistd.h>
int main() {
  StartPython();
  std::string objects;
  for (int i = 0; i < 24; i++) objects += " o" + std::to_string(i);
  Ref pddl = PyPddl("(define (domain d) (:predicates (f ?x) (g)) (:action a :parameters (?x) :precondition (not (f ?x)) :effect (f ?x))"
                    " (:action b :parameters (?x) :precondition (f ?x) :effect (not (f ?x))))",
                    "(define (problem p) (:domain d) (:objects" + objects + ") (:init) (:goal (g)))");
  Ref planner = Construct("Planner", {pddl});
  Ref root = GetAttr(planner, "root");
  Ref search = Construct("BreadthFirstSearch", {root, Int(24)}, {{"timeout", simpy::Float(0.05)}});
  alarm(6);  // there is no end to this search otherwise
  std::string error;
  try {
    CallMethod(search, "__next__");
  } catch (const simpy::PyError& e) {
    error = e.kind;
  }
  CHECK(error == "StopIteration");
  return g_bad != 0;
}
""")
