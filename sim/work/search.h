// What the search checks (C02, C03, C04) share: graphs with deliberately awkward nodes, planning
// problems with their reference plans, and iterators with what they have yielded so far.
#ifndef SIM_WORK_SEARCH_H_
#define SIM_WORK_SEARCH_H_

#include <algorithm>
#include <map>

#include "model/model.h"
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/planner.h"
#include "work/common.h"

SIM_HARNESS_BEGIN
namespace simw {

// ---- a graph whose nodes know the edge they were reached by
struct Graph {
  std::vector<std::vector<std::pair<int, int>>> kids;  // per vertex: (edge id, target)
  std::vector<bool> goal;
  std::function<void(int vertex, int edge)> on_test;    // called when a node is tested (outside calls)
  std::function<void(int vertex, int edge)> on_child;   // called when a child is produced

  static Graph Random(Rng& rng, bool big = false) {
    Graph g;
    const int n = big ? rng.Range(2, 40) : rng.Range(1, 7);
    g.kids.resize(n);
    int edge = 0;
    if (big) {
      // Either a few vertices with many children or a long way with short detours.
      const bool wide = rng.Chance(1, 2);
      const int goal_den = rng.Range(2, 12);
      for (int v = 0; v < n; v++) {
        g.goal.push_back(v > 0 && (v == n - 1 || rng.Chance(1, wide ? goal_den : 30)));
        const int d = wide ? (v == 0 || rng.Chance(1, 8) ? rng.Range(8, 90) : static_cast<int>(rng.Below(3)))
                           : (rng.Chance(1, 6) ? 2 : 1);
        for (int k = 0; k < d; k++)
          g.kids[v].push_back({edge++, !wide && k == 0 ? (v + 1) % n : static_cast<int>(rng.Below(n))});
      }
      return g;
    }
    const int goal_den = rng.Range(2, 5);
    const bool chain = rng.Chance(1, 5);
    for (int v = 0; v < n; v++) {
      g.goal.push_back(rng.Chance(1, goal_den) && (v > 0 || rng.Chance(1, 4)));
      const int d = chain ? 1 : static_cast<int>(rng.Below(4));
      for (int k = 0; k < d; k++)
        g.kids[v].push_back({edge++, chain ? (v + 1) % n : static_cast<int>(rng.Below(n))});  // multi-edges, cycles
    }
    return g;
  }
};

class GNode {
 public:
  class iterator;
  GNode() = default;
  GNode(const Graph* g, int v, int e)
      : g_(g), v_(v), e_(e), tag_("vertex " + std::to_string(v) + " reached by edge " + std::to_string(e)) {}
  GNode(const GNode&) = default;
  GNode& operator=(const GNode&) = default;
  GNode(GNode&& o) noexcept : g_(o.g_), v_(o.v_), e_(o.e_), tag_(std::move(o.tag_)) { o.Leave(); }
  GNode& operator=(GNode&& o) noexcept {
    if (this == &o) return *this;
    g_ = o.g_;
    v_ = o.v_;
    e_ = o.e_;
    tag_ = std::move(o.tag_);
    o.Leave();
    return *this;
  }

  explicit operator bool() const {
    if (!Usable("tested")) return false;
    if (g_->on_test) {
      sim::Outside out;
      g_->on_test(v_, e_);
    }
    return g_->goal[v_];
  }
  inline iterator begin() const;
  inline iterator end() const;
  bool Usable(const char* use) const {
    if (v_ >= 0) return true;
    sim::Outside out;
    Bad("moved-from", std::string("a moved-from or empty node was ") + use);
    return false;
  }
  int vertex() const { return v_; }
  int edge() const { return e_; }
  bool Intact() const { return tag_ == GNode(g_, v_, e_).tag_; }

  friend std::ostream& operator<<(std::ostream& os, const GNode& n) { return os << n.tag_; }

 private:
  void Leave() {
    v_ = -1;
    e_ = -2;
    tag_ = "moved from";
  }
  const Graph* g_ = nullptr;
  int v_ = -1, e_ = -2;
  std::string tag_;
  friend class iterator;
};

// An input iterator in the strict sense: it holds the child it stands on.
class GNode::iterator {
 public:
  using iterator_category = std::input_iterator_tag;
  using value_type = GNode;
  using difference_type = ptrdiff_t;
  using pointer = const GNode*;
  using reference = const GNode&;
  iterator(const GNode* parent, size_t i) : parent_(parent), i_(i) { Load(); }
  iterator& operator++() {
    i_++;
    Load();
    return *this;
  }
  bool operator==(const iterator& o) const { return i_ == o.i_; }
  bool operator!=(const iterator& o) const { return i_ != o.i_; }
  const GNode& operator*() const { return child_; }

 private:
  void Load() {
    if (parent_->v_ < 0) return;
    const auto& kids = parent_->g_->kids[parent_->v_];
    if (i_ >= kids.size()) {
      child_ = GNode();
      return;
    }
    child_ = GNode(parent_->g_, kids[i_].second, kids[i_].first);
    if (parent_->g_->on_child) {
      sim::Outside out;
      parent_->g_->on_child(kids[i_].second, kids[i_].first);
    }
  }
  const GNode* parent_;
  size_t i_;
  GNode child_;
};
GNode::iterator GNode::begin() const {
  Usable("expanded");
  return iterator(this, 0);
}
GNode::iterator GNode::end() const { return iterator(this, v_ < 0 ? 0 : g_->kids[v_].size()); }

// ---- expected plans
enum class Order { kAny, kByLength, kExact, kByRank };
struct Expected {
  std::map<std::string, uint64_t> plans;  // key of the path -> length or rank
  std::vector<std::string> order;         // kExact
  Order how = Order::kAny;
};

inline std::string KeyOf(const std::vector<int>& edges) { return "root/" + Join(edges, "/"); }

// Compare function state for A*: a pseudo-random cost per path.
struct Costs {
  uint64_t salt = 0;
  uint64_t range = 0;  // 0: practically no ties
  bool decreasing = true;
  uint64_t Of(const std::vector<uint64_t>& path) const {
    uint64_t h = salt;
    for (uint64_t e : path) h = sim::Mix(h, e + 3);
    return range ? h % range : h;
  }
};
inline uint64_t NodeId(const GNode& n) { return static_cast<uint64_t>(n.edge() + 1); }
inline uint64_t NodeId(const symbolic::Planner::Node& n) {
  return n.depth() == 0 || n.action().empty() ? 0 : sim::HashStr(n.action());
}
template <typename NodeT>
struct Worse {
  const Costs* costs;
  bool operator()(const symbolic::SearchNode<NodeT>& a, const symbolic::SearchNode<NodeT>& b) const {
    return Of(a) > Of(b);
  }
  uint64_t Of(const symbolic::SearchNode<NodeT>& s) const {
    std::vector<uint64_t> path;
    for (const NodeT& n : s.ancestors) path.push_back(NodeId(n));
    path.push_back(NodeId(s.node));
    return costs->Of(path);
  }
};

// A tree of paths, built by the reference; used for every kind of search.
struct PathTree {
  struct N {
    std::string key;
    std::vector<uint64_t> ids;
    bool goal = false;
    std::vector<int> kids;
    int depth = 0;
  };
  std::vector<N> nodes;
  bool whole = false;  // no path goes on beyond the nodes

  // A depth for a search: `depth`, or where nothing more lies there a larger one.
  int Deeper(Rng& rng, int depth) const {
    if (!whole || !rng.Chance(1, 4)) return depth;
    static const int large[] = {8, 9, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1 << 30, 2147483647};
    const int d = rng.Chance(1, 4) ? depth + rng.Range(1, 9) : rng.Chance(1, 5) ? 2147483647 : large[rng.Below(17)];
    if (d > depth) sim::CurrentRun()->Probe("depth beyond all paths");
    return std::max(depth, d);
  }

  // The depth to construct a search with; the largest of the above stands for no limit at all.
  static size_t Limit(int depth) { return depth == 2147483647 ? static_cast<size_t>(-1) : static_cast<size_t>(depth); }

  Expected ByLength(int max_depth) const {
    Expected e;
    e.how = Order::kByLength;
    for (const N& n : nodes)
      if (n.goal && n.depth <= max_depth) e.plans[n.key] = n.ids.size();
    return e;
  }
  Expected Unordered(int max_depth) const {
    Expected e = ByLength(max_depth);
    e.how = Order::kAny;
    return e;
  }
  Expected BestFirst(int max_depth, const Costs& c) const {
    Expected e;
    e.how = c.range == 0 ? Order::kExact : Order::kByRank;
    std::vector<std::pair<uint64_t, int>> open{{c.Of(nodes[0].ids), 0}};
    uint64_t worst = 0;
    while (!open.empty()) {
      auto best = std::min_element(open.begin(), open.end());
      const int k = best->second;
      // Popped costs may fall again; a plan's rank is the worst cost that had to be taken before it.
      worst = std::max(worst, best->first);
      open.erase(best);
      if (nodes[k].goal) {
        e.order.push_back(nodes[k].key);
        uint64_t rank = 0;
        for (size_t i = 1; i <= nodes[k].ids.size(); i++)
          rank = std::max(rank, c.Of({nodes[k].ids.begin(), nodes[k].ids.begin() + i}));
        e.plans[nodes[k].key] = rank;
        continue;
      }
      if (nodes[k].depth >= max_depth) continue;
      for (int j : nodes[k].kids) open.emplace_back(c.Of(nodes[j].ids), j);
    }
    return e;
  }
};

// How much of a graph is searched: now and then much more than usual.
struct GraphSize {
  bool big;
  size_t limit;
  int depth;
  static GraphSize Random(Rng& rng) {
    if (!rng.Chance(1, 12)) return {false, 120, 6};
    return {true, static_cast<size_t>(rng.Range(200, 900)), 45};
  }
};

// Paths of a graph up to a depth, as far as the limit on their number allows. Returns the depth.
inline int Unfold(const Graph& g, int max_depth, size_t limit, PathTree* t) {
  t->nodes.clear();
  t->whole = false;
  PathTree::N root;
  root.key = KeyOf({});
  root.ids = {0};
  root.goal = g.goal[0];
  std::vector<std::pair<int, std::vector<int>>> at{{0, {}}};
  t->nodes.push_back(root);
  size_t lo = 0;
  for (int d = 0; d < max_depth; d++) {
    const size_t hi = t->nodes.size();
    std::vector<std::pair<int, std::vector<int>>> next;
    size_t grown = 0;
    for (size_t k = lo; k < hi; k++)
      if (!t->nodes[k].goal) grown += g.kids[at[k - lo].first].size();
    if (hi + grown > limit) return d;
    if (grown == 0) t->whole = true;
    for (size_t k = lo; k < hi; k++) {
      if (t->nodes[k].goal) continue;
      for (auto& e : g.kids[at[k - lo].first]) {
        PathTree::N n;
        auto path = at[k - lo].second;
        path.push_back(e.first);
        n.key = KeyOf(path);
        n.ids = t->nodes[k].ids;
        n.ids.push_back(static_cast<uint64_t>(e.first + 1));
        n.goal = g.goal[e.second];
        n.depth = d + 1;
        t->nodes[k].kids.push_back(static_cast<int>(t->nodes.size()));
        t->nodes.push_back(n);
        next.emplace_back(e.second, path);
      }
    }
    lo = hi;
    at = next;
  }
  return max_depth;
}

// ---- a planning problem with its reference plans
struct Planning {
  model::Problem p;
  std::unique_ptr<symbolic::Pddl> pddl;
  std::unique_ptr<symbolic::Planner> planner;
  model::State root;
  std::optional<model::State> start;  // where the planner starts, if not in the initial state
  PathTree tree;
  std::map<std::string, model::State> state_of;  // per path key
  std::map<std::string, std::string> action_of;
  int depth = 0;

  // Unfolds the model; false if some step is ambiguous or nothing fits the limit.
  bool Unfold(int max_depth, size_t limit) {
    tree.nodes.clear();
    tree.whole = false;
    state_of.clear();
    action_of.clear();
    struct At {
      model::State s;
      std::vector<model::State> seen;
    };
    std::vector<At> at{{root, {}}};
    PathTree::N n0;
    n0.key = "root";
    n0.ids = {0};
    n0.goal = p.Holds(p.goal, {}, root);
    state_of["root"] = root;
    action_of["root"] = "";
    tree.nodes.push_back(n0);
    size_t lo = 0;
    for (depth = 0; depth < max_depth; depth++) {
      const size_t hi = tree.nodes.size();
      std::vector<At> next;
      std::vector<PathTree::N> fresh;
      for (size_t k = lo; k < hi; k++) {
        if (tree.nodes[k].goal) continue;
        const At& x = at[k - lo];
        for (auto& a : p.Applicable(x.s)) {
          auto s = p.Next(x.s, p.actions[a.first], a.second);
          if (!s) return false;
          At y{*s, x.seen};
          y.seen.push_back(x.s);
          if (std::find(y.seen.begin(), y.seen.end(), *s) != y.seen.end()) continue;
          PathTree::N n;
          const std::string call = p.Call(p.actions[a.first], a.second);
          n.key = tree.nodes[k].key + "/" + call;
          n.ids = tree.nodes[k].ids;
          n.ids.push_back(sim::HashStr(call));
          n.goal = p.Holds(p.goal, {}, *s);
          n.depth = depth + 1;
          tree.nodes[k].kids.push_back(static_cast<int>(hi + fresh.size()));
          state_of[n.key] = *s;
          action_of[n.key] = call;
          fresh.push_back(n);
          next.push_back(y);
          if (hi + fresh.size() > limit) {
            for (size_t q = lo; q < hi; q++) tree.nodes[q].kids.clear();
            return true;
          }
        }
      }
      tree.whole = fresh.empty();
      tree.nodes.insert(tree.nodes.end(), fresh.begin(), fresh.end());
      lo = hi;
      at = next;
    }
    return true;
  }
  // A goal that some random walk reaches.
  void WalkGoal(Rng& rng) {
    model::State s = root;
    for (int steps = rng.Range(1, 3); steps > 0; steps--) {
      auto app = p.Applicable(s);
      if (app.empty()) break;
      auto& a = rng.Pick(app);
      auto n = p.Next(s, p.actions[a.first], a.second);
      if (!n) break;
      s = *n;
    }
    std::vector<model::Goal> diff;
    for (const model::Atom& a : p.AllAtoms()) {
      const bool was = root.count(a) > 0, is = s.count(a) > 0;
      if (was == is && !rng.Chance(1, 12)) continue;
      model::Goal g;
      g.kind = model::Goal::kAtom;
      g.pred = a.pred;
      for (int o : a.args) {
        model::Term t;
        t.obj = o;
        g.terms.push_back(t);
      }
      if (!is) {
        model::Goal n;
        n.kind = model::Goal::kNot;
        n.kids.push_back(g);
        g = n;
      }
      diff.push_back(g);
    }
    if (diff.empty()) return;
    rng.Shuffle(diff);
    model::Goal g;
    g.kind = model::Goal::kAnd;
    for (size_t i = 0; i < diff.size() && i < 2; i++) g.kids.push_back(diff[i]);
    p.goal = g;
  }
  // A problem with a great many short plans.
  bool Fan(Rng& rng, int max_depth, int max_objects, size_t limit) {
    p = model::Problem();
    const bool steps = rng.Chance(1, 2);
    const int n = rng.Range(2, steps ? max_objects / 2 : max_objects);
    for (int i = 0; i < n; i++) {
      p.objects.push_back("w" + std::to_string(i));
      p.type_of.push_back(-1);
    }
    p.preds.resize(3);
    const char* const kNames[] = {"f", "g", "h"};
    for (int k = 0; k < 3; k++) {
      p.preds[k].name = kNames[k];
      p.preds[k].params.assign(2 - k, -1);
    }
    auto atom = [](int pred) {
      std::vector<model::Term> terms(2 - pred);
      for (size_t v = 0; v < terms.size(); v++) terms[v].var = static_cast<int>(v);
      return terms;
    };
    p.actions.resize(steps ? 2 : 1);
    for (size_t k = 0; k < p.actions.size(); k++) {
      p.actions[k].name = k == 0 ? "a" : "b";
      p.actions[k].params.assign(2 - k, -1);
      for (int pred : {static_cast<int>(k), 2}) {
        if (k == 1 && pred == 2) continue;
        model::Effect e;
        e.pred = pred;
        e.terms = atom(pred);
        p.actions[k].effects.push_back(e);
      }
    }
    // Done as soon as some f is true, or one about a certain object.
    model::Goal g;
    g.kind = model::Goal::kAtom;
    if (rng.Chance(2, 3)) {
      g.pred = 2;
      p.goal = g;
    } else {
      g.pred = 0;
      g.terms = {model::Term{-1, static_cast<int>(rng.Below(n))}, model::Term{0, -1}};
      p.goal = model::Goal();
      p.goal.kind = model::Goal::kExists;
      p.goal.vars = {-1};
      p.goal.kids.push_back(g);
    }
    start.reset();
    root = p.init;
    return Unfold(max_depth, limit);
  }
  // Draws problems until one has plans (or tries run out). False: give up.
  bool Draw(Rng& rng, const model::Options& o, int max_depth, size_t limit, bool any_start = false) {
    for (int tries = 0;; tries++) {
      if (tries == 12) return false;
      p = model::Problem::Random(rng, o);
      if (!p.Closure(p.init)) continue;
      start.reset();
      if (any_start && rng.Chance(1, 4)) {
        // Any state will do, even one with derived facts that do not hold.
        start.emplace();
        const int share = rng.Range(0, 3);
        for (const model::Atom& a : p.AllAtoms())
          if (rng.Chance(share, 4)) start->insert(a);
        if (rng.Chance(1, 3)) start->insert(p.init.begin(), p.init.end());
      }
      auto closed = p.Closure(start ? *start : p.init);
      if (!closed) continue;
      root = p.rules.empty() ? *closed : p.Derive(*closed);
      if (rng.Chance(4, 5)) WalkGoal(rng);
      if (!Unfold(max_depth, limit)) continue;
      bool any = false;
      for (auto& n : tree.nodes) any = any || n.goal;
      if (!any && tries < 10 && rng.Chance(4, 5)) continue;
      if (tree.nodes[0].goal && tries < 10 && rng.Chance(4, 5)) continue;
      return true;
    }
  }
  // Draws a problem and loads it. False: give up.
  bool Make(Rng& rng, const model::Options& o, int max_depth, size_t limit) {
    if (rng.Chance(1, 48)) {
      if (!Fan(rng, std::min(max_depth, 2), 16, 400)) return false;
      sim::CurrentRun()->Probe("a great many plans");
    } else if (!Draw(rng, o, max_depth, limit, true)) {
      return false;
    }
    sim::FsPut("/simfs/d.pddl", {p.DomainText()});
    return Must("load", "loading the problem", [&] {
      pddl = std::make_unique<symbolic::Pddl>("/simfs/d.pddl", p.ProblemText());
      if (!start) {
        planner = std::make_unique<symbolic::Planner>(*pddl);
        return;
      }
      const auto facts = p.Strings(*start);
      const symbolic::State state(*pddl, {facts.begin(), facts.end()});
      planner = std::make_unique<symbolic::Planner>(*pddl, state);
      sim::CurrentRun()->Probe("search from a given state");
    });
  }
  std::string PlanKey(const std::vector<symbolic::Planner::Node>& plan, const std::string& where) const {
    std::string key;
    for (size_t i = 0; i < plan.size(); i++) {
      std::string action;
      std::set<std::string> strs;
      size_t d = 0;
      Must("node-error", "reading a plan", [&] {
        action = plan[i].action();
        d = plan[i].depth();
        strs = symbolic::Stringify(plan[i].state());
      });
      key = i == 0 ? (action.empty() ? "root" : "root?" + action) : key + "/" + action;
      auto it = state_of.find(key);
      if (it == state_of.end()) {
        Bad("not-a-path", where + ": yielded a path that does not exist: " + key);
        return key;
      }
      const auto want = p.Strings(it->second);
      if (strs != want)
        Bad("wrong-state", where + ": after " + key + " the node holds {" + Join(strs) + "} instead of {" + Join(want) + "}");
      if (d != i) Bad("wrong-depth", where + ": node " + std::to_string(i) + " of " + key + " says depth " + std::to_string(d));
    }
    return key;
  }
};

// Down a path of nodes; at each the children are walked forwards and backwards.
inline void WalkChildren(const Planning& pl, Rng& r, const std::string& where) {
  using symbolic::Planner;
  std::vector<model::State> path{pl.root};
  std::vector<std::unique_ptr<Planner::Node>> nodes;
  // From the root, or from a node that stands further down.
  static const size_t kDepths[] = {1, 2, 126, 127, 253, 254, 255, 256, 32766, 65534, 65535, 2147483646, 4294967294, 4294967295};
  const size_t base = r.Chance(2, 5) ? kDepths[r.Below(14)] : 0;
  if (!Must("node-error", where, [&] {
        const Planner::Node& root = pl.planner->root();
        nodes.push_back(base == 0 ? std::make_unique<Planner::Node>(root)
                                  : std::make_unique<Planner::Node>(*pl.pddl, root.state(), base));
      }))
    return;
  if (base > 0) sim::CurrentRun()->Probe("children of a deep node");
  for (int level = r.Range(1, 3); level > 0; level--) {
    const Planner::Node& node = *nodes.back();
    std::map<std::string, model::State> kids;
    for (auto& a : pl.p.Applicable(path.back())) {
      auto n = pl.p.Next(path.back(), pl.p.actions[a.first], a.second);
      if (!n) return;
      if (std::find(path.begin(), path.end(), *n) == path.end()) kids[pl.p.Call(pl.p.actions[a.first], a.second)] = *n;
    }
    std::vector<std::string> order;
    auto look = [&](const Planner::Node::iterator& it, const std::string& at) {
      std::string action;
      std::set<std::string> facts;
      if (!Must("node-error", at, [&] {
            action = (*it).action();
            facts = symbolic::Stringify((*it).state());
          }))
        return std::string("?");
      LogS(action);
      auto want = kids.find(action);
      if (want == kids.end()) Bad("expand", at + ": " + action + " should not be there");
      else if (facts != pl.p.Strings(want->second))
        Bad("wrong-state", at + ": " + action + " leads to {" + Join(facts) + "} instead of {" + Join(pl.p.Strings(want->second)) + "}");
      if ((*it).depth() != base + path.size()) Bad("wrong-depth", at + ": a child has depth " + std::to_string((*it).depth()));
      return action;
    };
    std::unique_ptr<Planner::Node::iterator> it, end;
    if (!Must("node-error", where, [&] {
          it = std::make_unique<Planner::Node::iterator>(node.begin());
          end = std::make_unique<Planner::Node::iterator>(node.end());
        }))
      return;
    std::set<std::string> seen;
    for (;;) {
      bool at_end = false;
      if (!Must("node-error", where, [&] { at_end = *it == *end; }) || sim::CurrentRun()->failed()) return;
      if (at_end) break;
      order.push_back(look(*it, where + ", forwards"));
      if (!seen.insert(order.back()).second) Bad("expand", where + ": " + order.back() + " is listed twice");
      if (sim::CurrentRun()->failed() || !Must("node-error", where, [&] { ++*it; })) return;
    }
    for (auto& k : kids)
      if (seen.count(k.first) == 0) Bad("expand", where + ": " + k.first + " is missing");
    // Back and forth.
    size_t at = order.size();
    if (r.Chance(1, 3)) it.swap(end);
    const size_t steps = order.empty() ? 0 : r.Range(1, 12);
    for (size_t k = 0; k < steps && !sim::CurrentRun()->failed(); k++) {
      const bool back = at == order.size() || (at > 0 && r.Chance(2, 3));
      if (!Must("node-error", where, [&] {
            if (back) --*it;
            else ++*it;
          }))
        return;
      at = back ? at - 1 : at + 1;
      bool at_end = false;
      if (!Must("node-error", where, [&] { at_end = *it == node.end(); })) return;
      if (at_end != (at == order.size())) {
        Bad("position", where + ": after a step " + (back ? "back" : "on") + " the walk is " + (at_end ? "" : "not ") + "at its end");
        return;
      }
      if (at_end) continue;
      const std::string action = look(*it, where + (back ? ", backwards" : ", forwards again"));
      if (action != order[at]) Bad("position", where + ": a step " + (back ? "back" : "on") + " leads to " + action + " instead of " + order[at]);
      if (back) sim::CurrentRun()->Probe("children walked backwards");
    }
    if (order.empty() || sim::CurrentRun()->failed()) return;
    // Down to a child.
    const std::string pick = r.Pick(order);
    if (!Must("node-error", where, [&] {
          for (const Planner::Node& c : node) {
            if (c.action() != pick) continue;
            nodes.push_back(std::make_unique<Planner::Node>(c));
            break;
          }
        }))
      return;
    path.push_back(kids.at(pick));
  }
}

inline std::string PlanKey(const std::vector<GNode>& plan, const std::string& where) {
  std::vector<int> edges;
  for (size_t i = 0; i < plan.size(); i++) {
    if (!plan[i].Usable("yielded")) return "?";
    if (!plan[i].Intact()) Bad("damaged", where + ": yielded a damaged node");
    if (i > 0) edges.push_back(plan[i].edge());
    else if (plan[i].edge() != -1) Bad("not-a-path", where + ": the path does not start at the root");
  }
  return plan.empty() ? "(empty)" : KeyOf(edges);
}

// ---- searches and iterators, whatever their type
struct AnyIt {
  virtual ~AnyIt() = default;
  virtual void Step() = 0;
  virtual bool IsEnd() = 0;
  virtual std::string Key(const std::string& where) = 0;
  virtual std::unique_ptr<AnyIt> Copy() const = 0;
  virtual bool Assign(const AnyIt& o) = 0;
  virtual bool SameEnd(const AnyIt& o) const = 0;
};
struct AnySearch {
  std::string name;
  Expected want;
  virtual ~AnySearch() = default;
  virtual std::unique_ptr<AnyIt> Begin() = 0;
  virtual std::vector<std::string> Loop(size_t limit) = 0;  // range-for over everything
};

template <typename S, typename NodeT>
struct SearchOf : AnySearch {
  using It = decltype(std::declval<S&>().begin());
  using KeyFn = std::function<std::string(const std::vector<NodeT>&, const std::string&)>;
  std::unique_ptr<S> s;
  KeyFn key;
  std::shared_ptr<void> keep;

  struct Iter : AnyIt {
    SearchOf* of;
    It it;
    Iter(SearchOf* o, const It& i) : of(o), it(i) {}
    void Step() override { ++it; }
    bool IsEnd() override { return it == of->s->end(); }
    std::string Key(const std::string& where) override {
      const std::vector<NodeT>* plan = nullptr;
      Must("deref", "dereferencing", [&] { plan = &*it; });
      return plan == nullptr ? "" : of->key(*plan, where);
    }
    std::unique_ptr<AnyIt> Copy() const override { return std::make_unique<Iter>(of, it); }
    bool Assign(const AnyIt& o) override {
      if constexpr (std::is_copy_assignable_v<It>) {
        it = static_cast<const Iter&>(o).it;
        return true;
      }
      return false;
    }
    bool SameEnd(const AnyIt& o) const override { return it == static_cast<const Iter&>(o).it; }
  };
  std::unique_ptr<AnyIt> Begin() override { return std::make_unique<Iter>(this, s->begin()); }
  std::vector<std::string> Loop(size_t limit) override {
    std::vector<std::string> keys;
    for (const auto& plan : *s) {
      sim::Outside out;
      keys.push_back(key(plan, name + " in a loop"));
      if (keys.size() > limit) break;
    }
    return keys;
  }
};

struct Cursor {
  std::unique_ptr<AnyIt> it;
  AnySearch* search = nullptr;
  std::vector<std::string> got;
  bool ended = false;
};

// Checks the position an iterator has just moved to.
inline void Arrived(Cursor& c, const std::string& where) {
  bool end = false;
  if (!Must("comparison-error", "comparing with the end", [&] { end = c.it->IsEnd(); })) return;
  const Expected& e = c.search->want;
  if (end) {
    LogS("end");
    c.ended = true;
    if (c.got.size() < e.plans.size()) {
      std::string missing;
      for (auto& p : e.plans)
        if (std::find(c.got.begin(), c.got.end(), p.first) == c.got.end()) missing = p.first;
      Bad("missing-plan", where + ": " + c.search->name + " ended after " + std::to_string(c.got.size()) + " of " +
                              std::to_string(e.plans.size()) + " plans, without " + missing);
    }
    return;
  }
  const std::string key = c.it->Key(where);
  LogS(key);
  if (c.ended) {
    Bad("after-end", where + ": " + c.search->name + " yielded " + key + " after its end");
    return;
  }
  auto it = e.plans.find(key);
  if (it == e.plans.end()) {
    Bad("not-a-plan", where + ": " + c.search->name + " yielded " + key + ", which is not a plan");
    return;
  }
  if (std::find(c.got.begin(), c.got.end(), key) != c.got.end())
    Bad("repeated", where + ": " + c.search->name + " yielded " + key + " twice");
  if (e.how == Order::kExact) {
    if (c.got.size() >= e.order.size() || e.order[c.got.size()] != key)
      Bad("order", where + ": " + c.search->name + " yielded " + key + " while a better path was open, expected " +
                       (c.got.size() < e.order.size() ? e.order[c.got.size()] : "the end"));
  } else if (e.how != Order::kAny && !c.got.empty()) {
    auto last = e.plans.find(c.got.back());
    if (last != e.plans.end() && last->second > it->second)
      Bad("order", where + ": " + c.search->name + " yielded " + key + " after the worse " + c.got.back());
  }
  c.got.push_back(key);
}

// Swallows what verbose searches print.
inline void Silence() {
  struct Sink : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
  };
  static Sink* sink = new Sink;
  std::cout.rdbuf(sink);
}

struct SearchWorld {
  std::vector<Graph> graphs;
  std::vector<GNode> roots;
  std::vector<std::unique_ptr<Planning>> plannings;
  std::vector<std::unique_ptr<symbolic::Planner::Node>> spare_roots;
  std::vector<std::unique_ptr<AnySearch>> searches;
  std::vector<std::unique_ptr<Costs>> costs;
  std::vector<std::vector<Cursor>> cursors;  // per client
};

// Clients start, advance, copy, assign, re-read and abandon iterators over the world's searches.
inline void AddSearchClients(Run& run, const std::shared_ptr<SearchWorld>& w, int clients, int ops) {
  Rng& rng = run.rng;
  w->cursors.resize(clients);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    w->cursors[c].resize(3);
    for (int o = 0; o < ops; o++) {
      const int i = static_cast<int>(rng.Below(3)), j = static_cast<int>(rng.Below(3));
      const int s = static_cast<int>(rng.Below(w->searches.size()));
      const int kind = o == 0 ? 0 : rng.Range(0, 15);
      const uint64_t sub = rng.Next();
      static const char* names[] = {"start", "step", "copy from", "assign from", "abandon", "re-read", "run to the end",
                                    "loop over"};
      const int k = kind == 0 ? 0 : kind <= 8 ? 1 : kind == 9 ? 2 : kind == 10 ? 3 : kind == 11 ? 4 : kind == 12 ? 5 : kind <= 14 ? 6 : 7;
      AnySearch* search = w->searches[s].get();
      std::string label = std::string(names[k]) + " iterator " + std::to_string(i);
      if (k == 0 || k == 7) label += " of " + search->name;
      if (k == 2 || k == 3) label += " iterator " + std::to_string(j);
      run.AddOp(c, label, [=] {
        Rng r(sub);
        Cursor& a = w->cursors[c][i];
        Cursor& b = w->cursors[c][j];
        auto step = [&](Cursor& x, const std::string& where) {
          if (!Must("step-error", where, [&] { x.it->Step(); })) return false;
          Arrived(x, where);
          return !sim::CurrentRun()->failed();
        };
        auto start = [&](Cursor& x) {
          x = Cursor();
          x.search = search;
          if (Must("begin-error", label, [&] { x.it = search->Begin(); })) Arrived(x, label);
        };
        switch (k) {
          case 0:
            start(a);
            break;
          case 1: {
            if (!a.it) {
              start(a);
              break;
            }
            for (int n = r.Range(1, 3); n > 0; n--)
              if (!step(a, label)) return;
            break;
          }
          case 2: {
            if (!b.it || i == j) return;
            std::unique_ptr<AnyIt> t;
            if (!Must("copy-error", label, [&] { t = b.it->Copy(); })) return;
            a = Cursor();
            a.it = std::move(t);
            a.search = b.search;
            a.got = b.got;
            a.ended = b.ended;
            sim::CurrentRun()->Probe("iterator copied in mid-search");
            break;
          }
          case 3: {
            if (!b.it || !a.it || a.search != b.search) return;
            bool done = false;
            if (!Must("copy-error", label, [&] { done = a.it->Assign(*b.it); }) || !done) return;
            if (i == j) return;
            a.got = b.got;
            a.ended = b.ended;
            break;
          }
          case 4:
            if (!a.it) return;
            if (!a.ended) sim::CurrentRun()->Fired(sim::kAbandon);
            Must("drop-error", label, [&] { a.it.reset(); });
            a = Cursor();
            break;
          case 5:
            if (!a.it) return;
            break;
          case 6: {
            if (!a.it) start(a);
            for (int n = 0; n < 400 && a.it && !a.ended && !sim::CurrentRun()->failed(); n++)
              if (!step(a, label)) return;
            if (a.it && a.ended && r.Chance(1, 2)) step(a, label + " and beyond");
            break;
          }
          case 7: {
            std::vector<std::string> keys;
            if (!Must("loop-error", label, [&] { keys = search->Loop(search->want.plans.size() + 2); })) return;
            std::vector<std::string> sorted = keys;
            std::sort(sorted.begin(), sorted.end());
            std::vector<std::string> want;
            for (auto& p : search->want.plans) want.push_back(p.first);
            LogS(Join(keys));
            if (sorted != want)
              Bad("loop", label + " yielded " + std::to_string(keys.size()) + " plans {" + Join(keys) + "} instead of the " +
                              std::to_string(want.size()) + " {" + Join(want) + "}");
            break;
          }
        }
        // Whatever else happened, iterators still stand on their plans.
        for (Cursor& x : w->cursors[c]) {
          if (!x.it || sim::CurrentRun()->failed()) continue;
          bool end = false;
          if (!Must("comparison-error", "comparing with the end", [&] { end = x.it->IsEnd(); })) return;
          if (end != x.ended) {
            Bad("position", "after " + label + ": an iterator is " + (end ? "" : "not ") + "at its end any more");
            return;
          }
          if (!end) {
            const std::string key = x.it->Key("after " + label);
            if (x.got.empty() || key != x.got.back())
              Bad("position", "after " + label + ": an iterator shows " + key + " instead of " +
                                  (x.got.empty() ? "nothing" : x.got.back()));
          }
        }
      });
    }
  }
}

inline model::Options PlanningOptions(Rng& rng) {
  model::Options o;
  o.max_objects = 3;
  o.max_action_arity = rng.Chance(1, 8) ? 3 : 2;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_facts = 24;
  if (rng.Chance(1, 4)) o.max_axioms = 2;
  if (rng.Chance(1, 4)) o.max_rules = 3;
  if (rng.Chance(1, 24)) o.no_actions = true;
  return o;
}

}  // namespace simw
SIM_HARNESS_END

#endif  // SIM_WORK_SEARCH_H_
