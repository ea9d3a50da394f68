// C04: depth-first and best-first search yield every plan, including the last.
#include "work/search.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::AStar;
using symbolic::DepthFirstSearch;
using symbolic::Planner;

// The compare function and the root are the caller's: searches refer to them.
template <typename NodeT>
struct Keeper {
  Worse<NodeT> worse;
};

template <typename NodeT, typename KeyFn>
std::unique_ptr<AnySearch> MakeSearch(SearchWorld& w, Rng& rng, const NodeT& root, const PathTree& t, int depth,
                                      const std::string& about, KeyFn key) {
  if (rng.Chance(1, 2)) {
    auto x = std::make_unique<SearchOf<DepthFirstSearch<NodeT>, NodeT>>();
    x->s = std::make_unique<DepthFirstSearch<NodeT>>(root, PathTree::Limit(depth));
    x->key = key;
    x->want = t.Unordered(depth);
    x->name = "depth-first " + about;
    return x;
  }
  auto c = std::make_unique<Costs>();
  c->salt = rng.Next();
  c->range = rng.Chance(2, 3) ? 0 : rng.Range(1, 5);
  auto keep = std::make_shared<Keeper<NodeT>>();
  keep->worse.costs = c.get();
  auto x = std::make_unique<SearchOf<AStar<NodeT, Worse<NodeT>>, NodeT>>();
  x->s = std::make_unique<AStar<NodeT, Worse<NodeT>>>(keep->worse, root, PathTree::Limit(depth));
  x->key = key;
  x->keep = keep;
  x->want = t.BestFirst(depth, *c);
  x->name = std::string("best-first ") + (c->range ? "with ties " : "") + about;
  w.costs.push_back(std::move(c));
  return x;
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<SearchWorld>();
  const bool generic = rng.Chance(2, 3);
  const int clients = rng.Chance(1, 3) ? 1 : rng.Range(2, 3);
  const size_t limit = 60;
  const int roots = rng.Range(1, 2);
  const int searches = rng.Range(1, 3);
  if (generic) {
    const GraphSize size = GraphSize::Random(rng);
    if (size.big) run.Probe("big graph");
    w->graphs.reserve(roots);
    w->roots.reserve(roots);
    for (int g = 0; g < roots; g++) {
      w->graphs.push_back(Graph::Random(rng, size.big));
      w->roots.emplace_back(&w->graphs[g], 0, -1);
    }
    for (int s = 0; s < searches; s++) {
      const int g = static_cast<int>(rng.Below(roots));
      PathTree t;
      const int known = Unfold(w->graphs[g], rng.Range(0, size.depth), size.limit, &t);
      const int depth = t.Deeper(rng, known);
      w->searches.push_back(MakeSearch<GNode>(
          *w, rng, w->roots[g], t, depth,
          "search " + std::to_string(s) + " (graph " + std::to_string(g) + ", depth " + std::to_string(depth) + ")",
          [](const std::vector<GNode>& p, const std::string& where) { return PlanKey(p, where); }));
    }
  } else {
    for (int g = 0; g < roots; g++) {
      auto pl = std::make_unique<Planning>();
      if (!pl->Make(rng, PlanningOptions(rng), rng.Range(1, 4), limit)) {
        if (run.failed()) return;
        break;
      }
      w->plannings.push_back(std::move(pl));
    }
    if (w->plannings.empty()) {
      run.Probe("no usable problem drawn");
      return;
    }
    for (int s = 0; s < searches; s++) {
      Planning* pl = w->plannings[rng.Below(w->plannings.size())].get();
      const int depth = rng.Chance(1, 3) ? pl->tree.Deeper(rng, pl->depth) : rng.Range(0, pl->depth);
      w->searches.push_back(MakeSearch<Planner::Node>(
          *w, rng, pl->planner->root(), pl->tree, depth,
          "search " + std::to_string(s) + " (planner, depth " + std::to_string(depth) + ")",
          [pl](const std::vector<Planner::Node>& p, const std::string& where) { return pl->PlanKey(p, where); }));
    }
  }
  size_t plans = 0;
  for (auto& s : w->searches) plans += s->want.plans.size();
  run.Probe(plans == 0 ? "no plans" : plans < 4 ? "1-3 plans" : "4 plans or more");
  AddSearchClients(run, w, clients, clients == 1 ? rng.Range(4, 14) : rng.Range(2, 6));
}

sim::Register reg({"C04", Build,
                   "One run: 1-3 clients start, advance, copy, re-read and abandon up to three iterators each over 1-3 "
                   "shared depth-first or A* searches, over random graphs with cycles and parallel edges or over the "
                   "planner's nodes of random problems; yields are compared with all paths of the graph or of the reference "
                   "interpreter, and A* yields with a reference best-first search under the same costs. Non-trivial: at "
                   "least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"include/symbolic/planning/depth_first_search.h", "include/symbolic/planning/a_star.h",
                    "include/symbolic/planning/planner.h", "src/planning/planner.cc", "src/pddl.cc", "src/action.cc",
                    "src/formula.cc", "src/state.cc"},
                   {"thread scheduler (seeded)", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "steps whose effects contradict one another are not generated",
                    "A* orders that the comparison leaves open (ties) are only checked against the worst cost on the path"}});
}  // namespace
SIM_HARNESS_END
