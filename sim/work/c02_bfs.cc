// C02: breadth-first planning yields exactly the loop-free plans, shortest first.
#include "work/search.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::BreadthFirstSearch;
using symbolic::Planner;

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<SearchWorld>();
  Silence();
  const bool generic = rng.Chance(1, 2);
  const int clients = rng.Chance(1, 3) ? 1 : rng.Range(2, 3);
  const size_t limit = 60;
  const int roots = rng.Range(1, 2);
  const int searches = rng.Range(1, 3);
  if (generic) {
    const GraphSize size = GraphSize::Random(rng);
    if (size.big) run.Probe("big graph");
    w->graphs.reserve(roots);
    w->roots.reserve(roots);
    for (int g = 0; g < roots; g++) {
      w->graphs.push_back(Graph::Random(rng, size.big));
      w->roots.emplace_back(&w->graphs[g], 0, -1);
    }
    for (int s = 0; s < searches; s++) {
      const int g = static_cast<int>(rng.Below(roots));
      PathTree t;
      const int known = Unfold(w->graphs[g], rng.Range(0, size.depth), size.limit, &t);
      const int depth = t.Deeper(rng, known);
      auto x = std::make_unique<SearchOf<BreadthFirstSearch<GNode>, GNode>>();
      x->s = rng.Chance(1, 4) ? std::make_unique<BreadthFirstSearch<GNode>>(w->roots[g], PathTree::Limit(depth), rng.Chance(1, 2), std::chrono::microseconds(int64_t{1} << 40))
                              : std::make_unique<BreadthFirstSearch<GNode>>(w->roots[g], PathTree::Limit(depth));
      x->key = [](const std::vector<GNode>& p, const std::string& where) { return PlanKey(p, where); };
      x->want = t.ByLength(depth);
      x->name = "search " + std::to_string(s) + " (graph " + std::to_string(g) + ", depth " + std::to_string(depth) + ")";
      w->searches.push_back(std::move(x));
    }
  } else {
    for (int g = 0; g < roots; g++) {
      auto pl = std::make_unique<Planning>();
      if (!pl->Make(rng, PlanningOptions(rng), rng.Range(1, 4), limit)) {
        if (run.failed()) return;
        break;
      }
      w->plannings.push_back(std::move(pl));
    }
    if (w->plannings.empty()) {
      run.Probe("no usable problem drawn");
      return;
    }
    for (int s = 0; s < searches; s++) {
      Planning* pl = w->plannings[rng.Below(w->plannings.size())].get();
      const int depth = rng.Chance(1, 3) ? pl->tree.Deeper(rng, pl->depth) : rng.Range(0, pl->depth);
      const Planner::Node* root = &pl->planner->root();
      if (rng.Chance(1, 3)) {
        w->spare_roots.push_back(std::make_unique<Planner::Node>(*root));
        root = w->spare_roots.back().get();
      }
      auto x = std::make_unique<SearchOf<BreadthFirstSearch<Planner::Node>, Planner::Node>>();
      x->s = std::make_unique<BreadthFirstSearch<Planner::Node>>(*root, PathTree::Limit(depth), rng.Chance(1, 6));
      x->key = [pl](const std::vector<Planner::Node>& p, const std::string& where) { return pl->PlanKey(p, where); };
      x->want = pl->tree.ByLength(depth);
      x->name = "search " + std::to_string(s) + " (planner, depth " + std::to_string(depth) + ")";
      w->searches.push_back(std::move(x));
    }
  }
  size_t plans = 0;
  for (auto& s : w->searches) plans += s->want.plans.size();
  run.Probe(plans == 0 ? "no plans" : plans < 4 ? "1-3 plans" : "4 plans or more");
  AddSearchClients(run, w, clients, clients == 1 ? rng.Range(4, 14) : rng.Range(2, 6));
  if (!generic && rng.Chance(1, 3)) {
    // One more client walks over the nodes' children.
    const int c = run.AddClient();
    for (int o = rng.Range(1, 3); o > 0; o--) {
      const Planning* pl = w->plannings[rng.Below(w->plannings.size())].get();
      const uint64_t sub = rng.Next();
      run.AddOp(c, "walk over children", [w, pl, sub] {
        Rng r(sub);
        WalkChildren(*pl, r, "walking over children");
      });
    }
  }
}

sim::Register reg({"C02", Build,
                   "One run: 1-3 clients start, advance, copy, assign, re-read and abandon up to three iterators each over "
                   "1-3 shared breadth-first searches, over random graphs with cycles and parallel edges or over the planner's "
                   "nodes of random problems; yields are compared with all paths of the graph or of the reference "
                   "interpreter. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"include/symbolic/planning/breadth_first_search.h", "include/symbolic/planning/planner.h",
                    "src/planning/planner.cc", "src/pddl.cc", "src/action.cc", "src/formula.cc", "src/state.cc"},
                   {"thread scheduler (seeded)", "clock", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "steps whose effects contradict one another are not generated"}});
}  // namespace
SIM_HARNESS_END
